//! Byte-range edits on a source text.
#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct Edits(pub Vec<Edit>);

impl Edits {
    pub fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.0.push(Edit {
            start: at,
            end: at,
            text: text.into(),
        });
    }
    pub fn rep(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.0.push(Edit {
            start,
            end,
            text: text.into(),
        });
    }
    /// Applies the edits to `src[lo..hi]`.
    pub fn apply(&self, src: &str, lo: usize, hi: usize) -> Result<String, String> {
        let mut v: Vec<&Edit> = self
            .0
            .iter()
            .filter(|e| e.start >= lo && e.end <= hi)
            .collect();
        v.sort_by_key(|e| (e.start, e.end));
        let mut out = String::new();
        let mut pos = lo;
        for e in v {
            if e.start < pos {
                return Err(format!(
                    "overlapping edits near `{}`",
                    &src[e.start..e.end.min(e.start + 40).max(e.start)]
                ));
            }
            out.push_str(&src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&src[pos..hi]);
        Ok(out)
    }
}
