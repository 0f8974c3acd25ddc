//! The part of byte-unit that is used.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Byte(u64);
#[derive(Debug)]
pub struct ParseError(String);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "not a size: {}", self.0)
    }
}
impl std::error::Error for ParseError {}
impl std::fmt::Display for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Byte {
    pub fn as_u64(self) -> u64 {
        self.0
    }
}
impl std::str::FromStr for Byte {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let bad = || ParseError(s.to_string());
        let t = s.trim();
        let n = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
        let v: u64 = t[..n].parse().map_err(|_| bad())?;
        let k = match t[n..].trim().to_ascii_uppercase().as_str() {
            "" | "B" => 1,
            "KB" => 1000,
            "KIB" => 1 << 10,
            "MB" => 1_000_000,
            "MIB" => 1 << 20,
            "GB" => 1_000_000_000,
            "GIB" => 1 << 30,
            _ => return Err(bad()),
        };
        v.checked_mul(k).map(Self).ok_or_else(bad)
    }
}
