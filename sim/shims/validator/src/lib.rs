//! Stand-in for validator: only the email check.
pub fn validate_email<T: AsRef<str>>(v: T) -> bool {
    let v = v.as_ref();
    match v.rsplit_once('@') {
        Some((u, d)) => {
            !u.is_empty()
                && u.bytes().all(|c| c.is_ascii_alphanumeric() || b".!#$%&'*+/=?^_`{|}~-".contains(&c))
                && !d.is_empty()
                && d.split('.').all(|p| {
                    !p.is_empty() && p.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-')
                })
        }
        None => false,
    }
}
