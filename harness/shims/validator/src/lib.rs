use std::borrow::Cow;
pub fn validate_email<'a, T: Into<Cow<'a, str>>>(v: T) -> bool {
    let v = v.into();
    match v.rsplit_once('@') {
        Some((u, d)) => {
            !u.is_empty()
                && !d.is_empty()
                && u.len() <= 64
                && u.bytes().all(|b| b.is_ascii_alphanumeric() || b".!#$%&'*+/=?^_`{|}~-".contains(&b))
                && d.split('.').all(|l| {
                    !l.is_empty()
                        && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
                        && !l.starts_with('-')
                        && !l.ends_with('-')
                })
        }
        None => false,
    }
}
