//! Strength stand-in: distinct characters decide the score.
#[derive(Debug)]
pub enum ZxcvbnError {
    BlankPassword,
}
impl std::fmt::Display for ZxcvbnError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Zxcvbn cannot evaluate a blank password")
    }
}
impl std::error::Error for ZxcvbnError {}
pub struct Entropy(u8);
impl Entropy {
    pub fn score(&self) -> u8 {
        self.0
    }
}
pub fn zxcvbn(p: &str, inputs: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if p.is_empty() {
        return Err(ZxcvbnError::BlankPassword);
    }
    if inputs.contains(&p) {
        return Ok(Entropy(0));
    }
    let mut c: Vec<char> = p.chars().collect();
    c.sort();
    c.dedup();
    Ok(Entropy((c.len() / 3).min(4) as u8))
}
