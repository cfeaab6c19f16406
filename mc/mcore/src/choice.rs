//! Stateless exploration: run a body again and again, taking every combination of its choices.

pub struct Chooser {
    /// (taken, number of options)
    made: Vec<(usize, usize)>,
    pos: usize,
    /// The first choices are the same in every run
    forced: usize,
    /// A forced choice was out of range: the run does not count
    pub void: bool,
}

impl Chooser {
    pub fn new(forced: &[usize]) -> Self {
        Self { made: forced.iter().map(|&c| (c, 0)).collect(), pos: 0, forced: forced.len(), void: false }
    }

    /// One of `0..n`
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.pos;
        self.pos += 1;
        if i < self.forced {
            if self.made[i].0 >= n {
                self.void = true;
                return 0;
            }
            return self.made[i].0;
        }
        if i == self.made.len() {
            self.made.push((0, n));
        }
        debug_assert_eq!(self.made[i].1, n, "the body is not deterministic");
        self.made[i].0
    }

    /// Choices of the current run
    pub fn path(&self) -> Vec<usize> {
        self.made[..self.pos.min(self.made.len())].iter().map(|c| c.0).collect()
    }

    /// Go on to the next combination
    pub fn next(&mut self) -> bool {
        if self.void {
            return false;
        }
        let unused = self.pos < self.forced && self.made[self.pos..self.forced].iter().any(|c| c.0 != 0);
        if unused {
            // Fewer choices than were forced: only the run with zeros counts
            return false;
        }
        self.made.truncate(self.pos.max(self.forced));
        self.pos = 0;
        while self.made.len() > self.forced {
            let last = self.made.last_mut().unwrap();
            if last.0 + 1 < last.1 {
                last.0 += 1;
                return true;
            }
            self.made.pop();
        }
        false
    }
}
