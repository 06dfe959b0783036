// ---- CTCP ----
pub open spec fn cased(up: bool, b: u8) -> u8 { if up { if 97 <= b <= 122 { (b - 32) as u8 } else { b } } else if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn case_of(up: bool, s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| cased(up, b)) }
/// What a body means as CTCP: the command, upper-cased, and its data; or no command and the body itself.
pub open spec fn ctcp(s: Seq<u8>) -> (Seq<u8>, Seq<u8>) {
    if s.len() > 0 && s[0] == 1 {
        let a = pre(s.drop_first(), until(s.drop_first(), 1));
        let k = span::<Word>(a);
        (case_of(true, pre(a, k)), if k < a.len() { suf(a, (k + 1) as nat) } else { Seq::empty() })
    } else { (Seq::empty(), s) }
}
pub open spec fn written(cmd: Seq<u8>, body: Seq<u8>) -> Seq<u8> { if cmd.len() == 0 { body } else { seq![1u8] + cmd + seq![32u8] + body + seq![1u8] } }
