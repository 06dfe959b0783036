// What a reader of lines does with a stream. Needs splitspec.inc and strings.inc.
/// std::io::Error, by its origin.
pub enum Why { Io, Eof, Parse }
pub open spec fn strip(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == 13 { strip(s.drop_last()) } else { s } }
/// What comes next in a stream: a line that is not empty and what follows it, a line that is too long, or the end inside a line.
pub enum Next { Line(Seq<u8>, Seq<u8>), Long, End }
pub open spec fn next(s: Seq<u8>, limit: nat) -> Next decreases s.len() via next_ends {
    let u = until(s, 10);
    if u < s.len() && u < limit {
        let body = strip(pre(s, u));
        if body.len() == 0 { next(suf(s, u + 1), limit) } else { Next::Line(body, suf(s, u + 1)) }
    } else if s.len() < limit { Next::End } else { Next::Long }
}
#[via_fn]
proof fn next_ends(s: Seq<u8>, limit: nat) { until_of(s, 10); }
pub open spec fn no_nl(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 10 }
/// C10: what a reader does with the bytes `s` (those it was handed back and those still to come).
/// `b`, `c`: the bytes handed back and those still to come afterwards.
pub open spec fn reads(s: Seq<u8>, limit: nat, b: Seq<u8>, c: Seq<u8>, good: spec_fn(Seq<u8>) -> bool, r: Result<Seq<u8>, Why>) -> bool {
    match r {
        // Exactly the next line.
        Ok(body) => good(body) && ok_Line(body) && next(s, limit) == Next::Line(body, c),
        // Nothing is lost: the next attempt starts from the same line.
        Err(Why::Io) => no_nl(b) && next(b + c, limit) == next(s, limit),
        Err(Why::Eof) => no_nl(b) && next(b + c, limit) == next(s, limit) && next(s, limit) is End,
        Err(Why::Parse) => next(s, limit) is Long || (next(s, limit) matches Next::Line(body, rest) && !(good(body) && ok_Line(body)) && rest == c),
    }
}
/// A reader that was interrupted and starts anew returns what it would have returned.
proof fn resumed(s: Seq<u8>, limit: nat, b: Seq<u8>, c: Seq<u8>, b2: Seq<u8>, c2: Seq<u8>, good: spec_fn(Seq<u8>) -> bool, r: Result<Seq<u8>, Why>)
    requires reads(s, limit, b, c, good, Err(Why::Io)), reads(b + c, limit, b2, c2, good, r),
    ensures reads(s, limit, b2, c2, good, r),
{ }
