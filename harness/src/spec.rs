//! Reference definitions the checks compare the code with (analysed, never executed).
pub fn h_spec_badges<'s>(badges: &'s str, info: &'s str) -> Vec<(&'s str, &'s str, Option<&'s str>)> {
    if badges.is_empty() { return Vec::new(); }
    let info: Vec<(&'s str, &'s str)> = info.split(',').filter_map(|i| i.split_once('/')).collect();
    badges
        .split(',')
        .filter_map(|b| b.split_once('/'))
        .map(|(name, version)| (name, version, info.iter().find(|x| x.0 == name).map(|x| x.1)))
        .collect()
}
pub fn h_spec_split_comma<'s>(s: &'s str) -> Vec<&'s str> { s.split(',').collect() }
pub fn h_spec_action<'s>(s: &'s str) -> (&'s str, bool) {
    match s.strip_prefix("\u{1}ACTION ").and_then(|v| v.strip_suffix('\u{1}')) {
        Some(v) => (v, true),
        None => (s, false),
    }
}
pub fn h_spec_whisper<'s>(s: &'s str) -> Option<(&'s str, &'s str)> { s.split_once(" :") }
pub fn h_spec_lookup<'s>(tags: Vec<(&'s str, &'s str)>, name: &str) -> Option<&'s str> {
    tags.iter().find(|t| t.0 == name).map(|t| t.1)
}
pub fn h_spec_nth_word<'s>(params: &'s str) -> (Option<&'s str>, Option<&'s str>) {
    (params.split_whitespace().nth(1), params.split_whitespace().nth(2))
}
