//! Reading of displayed durations, independent from the code which writes them

/// A displayed duration: value and half a unit of its last digit, in µs
#[derive(Clone, Copy, Debug)]
pub struct Shown {
    pub value: f64,
    pub tol: f64,
}
impl Shown {
    pub fn is(&self, us: f64) -> bool {
        (self.value - us).abs() <= self.tol * 1.0001 + us.abs() * 1e-9
    }
}

fn digits(s: &str, len: std::ops::RangeInclusive<usize>) -> Result<u64, String> {
    if !len.contains(&s.len()) || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("{s:?} is not a number of {len:?} digits"));
    }
    s.parse().map_err(|e| format!("{s:?}: {e}"))
}
/// Number with exactly two decimals
fn hundredths(s: &str, int: std::ops::RangeInclusive<usize>) -> Result<f64, String> {
    let (a, b) = s.split_once('.').ok_or_else(|| format!("no decimals in {s:?}"))?;
    Ok(digits(a, int)? as f64 + digits(b, 2..=2)? as f64 / 100.0)
}
const S: f64 = 1e6;

/// Read a duration in one of the documented formats:
/// `1.234µs`, `12.34ms`, `12.34s`, `m:ss.cc`, `h:mm:ss.cc`, `Nd hh:mm:ss.cc`
pub fn parse_duration(s: &str) -> Result<Shown, String> {
    if let Some(x) = s.strip_suffix("µs") {
        let ok = x.bytes().all(|b| b.is_ascii_digit() || b == b'.');
        let v: f64 = x.parse().map_err(|e| format!("{s:?}: {e}"))?;
        if !ok {
            return Err(format!("{s:?} is not a plain number of microseconds"));
        }
        return Ok(Shown { value: v, tol: 0.0 });
    }
    if let Some(x) = s.strip_suffix("ms") {
        return Ok(Shown { value: hundredths(x, 1..=4)? * 1e3, tol: 5.0 });
    }
    if let Some(x) = s.strip_suffix('s') {
        return Ok(Shown { value: hundredths(x, 1..=2)? * S, tol: 0.005 * S });
    }
    let (days, rest) = match s.split_once("d ") {
        Some((d, r)) => (Some(digits(d, 1..=30).or_else(|e| d.parse::<f64>().map(|x| x as u64).map_err(|_| e))?), r),
        None => (None, s),
    };
    let parts: Vec<&str> = rest.split(':').collect();
    let (h, m, sec) = match (days, &parts[..]) {
        (Some(_), [h, m, sec]) => (digits(h, 2..=2)?, digits(m, 2..=2)?, sec),
        (None, [h, m, sec]) => (digits(h, 1..=2)?, digits(m, 2..=2)?, sec),
        (None, [m, sec]) => (0, digits(m, 1..=2)?, sec),
        _ => return Err(format!("{s:?} is not a duration")),
    };
    let sec = hundredths(sec, 2..=2)?;
    if h >= 24 || m >= 60 || sec >= 60.0 {
        return Err(format!("{s:?} has a field out of its range"));
    }
    Ok(Shown { value: ((days.unwrap_or(0) as f64 * 24.0 + h as f64) * 60.0 + m as f64) * 60.0 * S + sec * S, tol: 0.005 * S })
}
