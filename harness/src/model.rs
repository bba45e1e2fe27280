//! What a value reader must do: a byte string with a Cursor-like position.
use crate::dev::Dev;
use crate::img::Run;
use crate::rng::Rng;
use crate::{ensure, R};
use binrw::io::SeekFrom;
use ntfs::types::NtfsPosition;
use ntfs::{NtfsError, NtfsReadSeek};

#[derive(Clone)]
pub struct Piece {
    pub start: u64,
    pub len: u64,
    /// absolute device position; None: sparse
    pub at: Option<u64>,
}

#[derive(Clone)]
pub struct Model {
    /// reported length
    pub len: u64,
    /// bytes that can be read at all (allocated)
    pub pieces: Vec<Piece>,
    /// Data Run decoding fails right after the pieces
    pub bad: bool,
    /// resident data, if not run-based
    pub flat: Option<(Vec<u8>, u64)>,
}

impl Model {
    pub fn of_runs(len: u64, runs: &[Run], c: u64, bad: bool) -> Model {
        let mut pieces = vec![];
        let mut s = 0;
        for run in runs {
            pieces.push(Piece { start: s, len: run.n * c, at: run.lcn.map(|l| l * c) });
            s += run.n * c;
        }
        Model { len, pieces, bad, flat: None }
    }
    pub fn flat(data: &[u8], at: u64) -> Model {
        Model { len: data.len() as u64, pieces: vec![], bad: false, flat: Some((data.to_vec(), at)) }
    }
    pub fn total(&self) -> u64 {
        match &self.flat {
            Some((d, _)) => d.len() as u64,
            None => self.pieces.last().map(|p| p.start + p.len).unwrap_or(0),
        }
    }
    pub fn limit(&self) -> u64 {
        self.len.min(self.total())
    }
    /// The byte at p < limit; None if it lies beyond the end of the device.
    pub fn byte(&self, dev: &Dev, p: u64) -> Option<u8> {
        if let Some((d, _)) = &self.flat {
            return Some(d[p as usize]);
        }
        let q = self.pieces.iter().find(|q| q.start <= p && p - q.start < q.len).unwrap();
        match q.at {
            None => Some(0),
            Some(a) => dev.data.get((a + (p - q.start)) as usize).copied(),
        }
    }
    pub fn check_pos(&self, p: u64, got: Option<u64>) -> R {
        if let Some((d, at)) = &self.flat {
            if p < d.len() as u64 {
                ensure!(got == Some(at + p), "reported position {:?} for offset {} of a resident value at {}", got, p, at);
            }
            return Ok(());
        }
        if p > self.len {
            return Ok(());
        }
        for q in &self.pieces {
            let inside = q.start < p && p < q.start + q.len;
            if inside || (p == 0 && q.start == 0) {
                let want = q.at.map(|a| a + (p - q.start)).filter(|x| *x != 0);
                // NtfsPosition cannot represent 0, so anything relative to it is not reported either
                let want = if q.at == Some(0) { None } else { want };
                ensure!(got == want, "reported position {:?} at offset {}, but the byte is at {:?}", got, p, want);
            } else if p == q.start && p < self.limit() && q.at.is_some() && q.at != Some(0) {
                // between two runs: the end of the previous run or the start of the next one
                let prev = self.pieces.iter().find(|x| x.start + x.len == p).and_then(|x| x.at.map(|a| a + x.len));
                ensure!(got == q.at || got == prev || (got.is_none()), "reported position {:?} between two runs ({:?} / {:?})", got, prev, q.at);
            }
        }
        Ok(())
    }
    pub fn check_read(&self, dev: &Dev, p: u64, want: usize, res: &Result<usize, String>, buf: &[u8], after: u64, faulty: bool) -> R {
        let lim = self.limit();
        match res {
            Err(e) => {
                ensure!(after == p, "a failed read ({}) moved the position from {} to {}", e, p, after);
                if faulty {
                    return Ok(());
                }
                ensure!(want > 0, "reading into an empty buffer failed: {}", e);
                if p >= lim {
                    ensure!(self.bad && p < self.len, "reading at {} (end is {}) failed: {}", p, lim, e);
                } else {
                    ensure!(self.byte(dev, p).is_none(), "reading at {} failed although the byte is there: {}", p, e);
                }
            }
            Ok(n) => {
                ensure!(*n <= want, "read returned {} for a buffer of {}", n, want);
                ensure!(after == p.saturating_add(*n as u64), "read {} bytes at {}, but the position is now {}", n, p, after);
                if *n == 0 {
                    ensure!(want == 0 || p >= lim, "read returned 0 at {} although {} bytes are available", p, lim - p.min(lim));
                    ensure!(want == 0 || !(self.bad && p < self.len && p >= lim), "read returned 0 at {} instead of reporting the broken run list", p);
                }
                ensure!(*n == 0 || p + *n as u64 <= lim, "read {} bytes at {} beyond the end {}", n, p, lim);
                for i in 0..*n {
                    let b = self.byte(dev, p + i as u64);
                    ensure!(b == Some(buf[i]), "byte at offset {} is {:#x}, but should be {:?}", p + i as u64, buf[i], b);
                }
            }
        }
        Ok(())
    }
    pub fn seek_target(&self, p: u64, s: SeekFrom) -> Option<u64> {
        match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => p.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        }
    }
    pub fn random_seek(&self, r: &mut Rng, p: u64) -> SeekFrom {
        let mut marks = vec![0, self.len, self.limit(), self.total()];
        for q in &self.pieces {
            marks.push(q.start);
        }
        let target = if r.chance(1, 12) {
            r.wide()
        } else if r.chance(1, 2) {
            r.near(&marks)
        } else {
            r.below(self.total() + 8)
        };
        match r.below(4) {
            0 => SeekFrom::Current((target as i128 - p as i128) as i64),
            1 => SeekFrom::End((target as i128 - self.len as i128) as i64),
            2 if r.chance(1, 8) => SeekFrom::Current(r.wide() as i64),
            3 if r.chance(1, 8) => SeekFrom::End(r.wide() as i64),
            _ => SeekFrom::Start(target),
        }
    }
    pub fn check_seek(&self, p: u64, s: SeekFrom, res: &Result<u64, String>, after: u64, faulty: bool) -> R {
        let t = self.seek_target(p, s);
        match (res, t) {
            (Ok(n), Some(t)) => {
                ensure!(*n == t && after == t, "seeking to {:?} from {} returned {} and left the position at {}", s, p, n, after);
            }
            (Ok(n), None) => return Err(format!("seeking to {:?} from {} succeeded with {}", s, p, n)),
            (Err(e), t) => {
                ensure!(after == p, "a failed seek ({}) moved the position from {} to {}", e, p, after);
                if let Some(t) = t {
                    ensure!(faulty || (self.bad && t >= self.total()), "seeking to {:?} from {} failed: {}", s, p, e);
                }
            }
        }
        Ok(())
    }
}

pub fn is_eof(e: &NtfsError) -> bool {
    matches!(e, NtfsError::Io(e) if e.kind() == binrw::io::ErrorKind::UnexpectedEof)
}

/// Runs a random history of reads and seeks and compares every step with the model.
pub fn history<V: NtfsReadSeek>(r: &mut Rng, v: &mut V, dev: &mut Dev, m: &Model, steps: usize, posf: &dyn Fn(&V) -> NtfsPosition, check_positions: bool) -> R {
    ensure!(v.stream_position() == 0, "initial position is {}", v.stream_position());
    for _ in 0..steps {
        if r.chance(1, 10) {
            dev.faults(r);
        } else if r.chance(1, 4) {
            dev.calm();
        }
        let inj = dev.injected;
        let p = v.stream_position();
        match r.below(8) {
            0..=2 => {
                let s = m.random_seek(r, p);
                let res = v.seek(dev, s).map_err(|e| format!("{e:?}"));
                m.check_seek(p, s, &res, v.stream_position(), dev.injected > inj)?;
            }
            3 => {
                // read_exact
                let want = read_len(r, m, p);
                let mut buf = vec![0xA5; want];
                let res = v.read_exact(dev, &mut buf);
                let faulty = dev.injected > inj;
                let after = v.stream_position();
                match res {
                    Ok(()) => {
                        ensure!(after == p + want as u64, "read_exact({}) at {} left the position at {}", want, p, after);
                        ensure!(want == 0 || p + want as u64 <= m.limit(), "read_exact({}) at {} succeeded beyond the end {}", want, p, m.limit());
                        m.check_read(dev, p, want, &Ok(want), &buf, after, faulty)?;
                    }
                    Err(e) => {
                        ensure!(after >= p && after - p <= want as u64, "read_exact moved from {} to {}", p, after);
                        let interrupted = matches!(&e, NtfsError::Io(e) if e.kind() == binrw::io::ErrorKind::Interrupted);
                        ensure!(!interrupted, "read_exact reported an interruption");
                        let hard = dev.fail > 0 && faulty;
                        if !hard {
                            let full = (0..want as u64).all(|i| p.checked_add(i).map_or(false, |x| x < m.limit() && m.byte(dev, x).is_some()));
                            ensure!(!full, "read_exact({}) at {} failed although everything is there: {:?}", want, p, e);
                        }
                    }
                }
            }
            _ => {
                let want = read_len(r, m, p);
                let mut buf = vec![0xA5; want];
                let res = v.read(dev, &mut buf).map_err(|e| format!("{e:?}"));
                m.check_read(dev, p, want, &res, &buf, v.stream_position(), dev.injected > inj)?;
            }
        }
        if check_positions {
            m.check_pos(v.stream_position(), posf(v).value().map(|x| x.get()))?;
        }
    }
    dev.calm();
    Ok(())
}

fn read_len(r: &mut Rng, m: &Model, p: u64) -> usize {
    let left = m.limit().saturating_sub(p);
    match r.below(6) {
        0 => r.below(4) as usize,
        1 => r.near(&[left.min(70000)]).min(80000) as usize,
        2 => r.below(5000) as usize,
        3 => {
            let q = m.pieces.iter().find(|q| p >= q.start && p - q.start < q.len);
            match q {
                Some(q) => r.near(&[(q.start + q.len - p).min(70000)]).min(80000) as usize,
                None => r.below(64) as usize,
            }
        }
        _ => r.below(left.min(4096) + 3) as usize,
    }
}
