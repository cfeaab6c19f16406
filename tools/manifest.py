# Writes /verif/MANIFEST.json. Run by hand after editing.
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,'..','properties.jsonl'))]
REF="Exhaustive within the bounds of DESIGN.md; trusts the reference model in mc/mcore, which states what the documentation says and is compared with the real code on every case."
T={
"C01":("exhaustive enumeration of values and types on the real code (bounded), equality oracle","exploration","All values of the type family within bounds are written and read back by the real code; no model is trusted beyond the list of values excluded by the statement."),
"C02":("exhaustive enumeration of container trees and values against a reference serializer and an independent XML parser","exploration",REF),
"C03":("exhaustive enumeration of documents and namespace scopes against a reference reader","exploration",REF),
"C04":("exhaustive enumeration of character data against a reference decoder","exploration",REF),
"C05":("exhaustive enumeration of characters and strings in every position, independent parser as oracle","exploration",REF),
"C06":("exhaustive enumeration of truncations, token edits and token sequences, independent well-formedness oracle","exploration",REF),
"C07":("exhaustive enumeration of short inputs, bounded edits, depths and call scripts with crash and hang capture","exploration","Every input within bounds is executed by the real code in a monitored process: panics, aborts, stack overflows and calls of more than 20 s are reported."),
"C08":("exhaustive enumeration of field occurrence sequences against a reference reader","exploration",REF),
"C09":("exhaustive enumeration of single and double insertions and permutations; the result must not change","exploration",REF),
"C10":("exhaustive enumeration of counts around every limit at every place, for all small limit settings","exploration",REF),
"C11":("explicit-state model checking: all call sequences up to a depth, replayed on the real serializer in lockstep with a reference model","model_checking","Every model trace is executed on the real serializer and compared call by call; bounded depth and argument alphabet."),
"C12":("explicit-state model checking: all call scripts up to a depth, replayed on the real deserializer in lockstep with a reference cursor","model_checking","Every model trace is executed on the real deserializer and compared call by call; bounded depth and documents."),
"C13":("fault enumeration: a failure injected at every write of every value","fault_enumeration","All single permanent write failures of all values within bounds; the writer records calls after the failure."),
"C14":("exhaustive enumeration of small trees against an independent parser","exploration",REF),
"C15":("exhaustive enumeration of texts in every borrowing position, pointer-range oracle","exploration",REF),
"C16":("exhaustive enumeration of values and of short texts over the lexical alphabet against an independent definition","exploration",REF),
"C17":("exhaustive enumeration of a generated family of type definitions, compiled against the real derives and compared with a reference reading of the options","exploration",REF),
"C18":("exhaustive enumeration of insertion points of forbidden constructs","exploration","Every construct at every position of every generated document, on the real code."),
"C19":("exhaustive enumeration of variants, near-miss texts and element sequences against a reference reader and writer","exploration",REF),
"C20":("exhaustive enumeration of container trees against a reference of the declaration policy","exploration",REF),
"C21":("exhaustive enumeration of definitions with options (subsets, token sequences, slips), each given to the compiler with the real derives, against rules of legality","exploration","Every definition within bounds is compiled against the real derives; trusts the rules of legality in mc/forms, which leave open what the documentation does not settle. Covers macro expansion and type checking, not the behaviour of what is accepted (C17)."),
}
checks=[]
for p in props:
    t,l,n=T[p['id']]
    checks.append({"property":p['id'],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","technique":t,"level":l,"level_note":n})
m={"version":1,"setup_cmd":"cd mc && cargo build --offline -p checks && cargo build --offline -p opts && cargo build --offline -p forms","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo are needed: everything is checked through the public interface and the derives. check.sh builds mc/ against /repo's working tree."}
json.dump(m,open(os.path.join(here,'..','MANIFEST.json'),'w'),indent=1)
