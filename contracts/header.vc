@module header
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
@top
/// ---------- what CLUMP_HEADER_REGEX (pinned) matches ----------
/// `\s`: the White_Space characters
pub open spec fn ws(c: char) -> bool {
    let n = c as u32;
    9 <= n <= 13 || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}

/// `\d`: the decimal digits of any script
pub uninterp spec fn nd(c: char) -> bool;

/// no space is a digit, and the ASCII digits are those from 0 to 9
pub axiom fn ax_nd(c: char)
    ensures
        ws(c) ==> !nd(c),
        (c as u32) < 128 ==> nd(c) == ('0' <= c <= '9'),
;

pub open spec fn digits_end(s: VSeq<char>, i: int) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && nd(s[i]) { digits_end(s, i + 1) } else { i }
}

pub open spec fn spaces_end(s: VSeq<char>, i: int) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && ws(s[i]) { spaces_end(s, i + 1) } else { i }
}

pub open spec fn char_at(s: VSeq<char>, i: int, c: char) -> bool {
    0 <= i < s.len() && s[i] == c
}

/// `(\d+)(,(\d+))?` from here on: the three groups and where they end; what follows is neither a digit nor, without
/// the second, a comma, so there is one way to match
pub open spec fn span_at(s: VSeq<char>, i: int) -> Option<(VSeq<char>, Option<VSeq<char>>, Option<VSeq<char>>, int)> {
    let e = digits_end(s, i);
    let f = digits_end(s, e + 1);
    if e <= i {
        None
    } else if char_at(s, e, ',') && f > e + 1 {
        Some((s.subrange(i, e), Some(s.subrange(e, f)), Some(s.subrange(e + 1, f)), f))
    } else {
        Some((s.subrange(i, e), None, None, e))
    }
}

/// `\s*(.*)(\n)?$` from here on
pub open spec fn tail_at(s: VSeq<char>, i: int) -> bool {
    exists|k: int| #[trigger] tail_from(s, i, k)
}

pub open spec fn tail_from(s: VSeq<char>, i: int, k: int) -> bool {
    &&& i <= k <= s.len()
    &&& forall|j: int| i <= j < k ==> ws(#[trigger] s[j])
    &&& forall|j: int| k <= j < s.len() - 1 ==> #[trigger] s[j] != '\n'
}

/// the groups 0 to 6 of `^@@\s+-(\d+)(,(\d+))?\s+\+(\d+)(,(\d+))?\s+@@\s*(.*)(\n)?$` in a line it matches
pub open spec fn header_groups(s: VSeq<char>) -> Option<VSeq<Option<VSeq<char>>>> {
    let m = spaces_end(s, 2);
    if char_at(s, 0, '@') && char_at(s, 1, '@') && m > 2 && char_at(s, m, '-') && span_at(s, m + 1).is_some() {
        let (g1, g2, g3, e) = span_at(s, m + 1).unwrap();
        let p = spaces_end(s, e);
        if p > e && char_at(s, p, '+') && span_at(s, p + 1).is_some() {
            let (g4, g5, g6, f) = span_at(s, p + 1).unwrap();
            let q = spaces_end(s, f);
            if q > f && char_at(s, q, '@') && char_at(s, q + 1, '@') && tail_at(s, q + 2) {
                Some(seq![Some(s), Some(g1), g2, g3, Some(g4), g5, g6])
            } else {
                None
            }
        } else {
            None
        }
    } else {
        None
    }
}

/// ---------- numbers ----------
pub open spec fn ascii_digits(s: VSeq<char>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> '0' <= #[trigger] s[j] <= '9'
}

pub open spec fn value(s: VSeq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}

pub open spec fn unsigned(s: VSeq<char>) -> VSeq<char> {
    if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s }
}

/// what `usize::from_str` makes of a string
pub open spec fn number(s: VSeq<char>) -> Option<usize> {
    let t = unsigned(s);
    if t.len() > 0 && ascii_digits(t) && 0 <= value(t) <= usize::MAX { Some(value(t) as usize) } else { None }
}

pub proof fn lemma_decimal(n: nat)
    ensures
        decimal(n).len() > 0,
        ascii_digits(decimal(n)),
        value(decimal(n)) == n,
    decreases n,
{
    if n >= 10 {
        lemma_decimal(n / 10);
        let c = (('0' as u8) + n % 10) as char;
        assert(decimal(n) == decimal(n / 10).push(c));
        assert(decimal(n).drop_last() =~= decimal(n / 10));
        assert(decimal(n).last() == c);
        assert(c as int == '0' as int + n % 10);
    } else {
        let c = (('0' as u8) + n) as char;
        assert(c as int == '0' as int + n);
        assert(decimal(n).drop_last() =~= VSeq::empty());
        assert(value(VSeq::<char>::empty()) == 0);
    }
}

pub proof fn lemma_number(n: usize)
    ensures
        number(decimal(n as nat)) == Some(n),
{
    lemma_decimal(n as nat);
    assert(decimal(n as nat)[0] != '+');
}

/// ---------- a header as it may be written ----------
/// `start,length` or, for one line, `start`
pub open spec fn span_form(start: usize, length: usize, short: bool) -> VSeq<char> {
    if short { decimal(start as nat) } else { decimal(start as nat) + ","@ + decimal(length as nat) }
}

pub open spec fn span_means(g: (VSeq<char>, Option<VSeq<char>>, Option<VSeq<char>>, int), start: usize, length: usize, end: int) -> bool {
    &&& number(g.0) == Some(start)
    &&& g.2.is_none() ==> length == 1
    &&& g.2.is_some() ==> number(g.2.unwrap()) == Some(length)
    &&& g.3 == end
}

pub proof fn lemma_digits_end(s: VSeq<char>, i: int, e: int)
    requires
        0 <= i <= e <= s.len(),
        forall|j: int| i <= j < e ==> '0' <= #[trigger] s[j] <= '9',
        e < s.len() ==> s[e] == ' ' || s[e] == ',',
    ensures
        digits_end(s, i) == e,
    decreases e - i,
{
    if i < e {
        ax_nd(s[i]);
        assert('0' <= s[i] <= '9');
        lemma_digits_end(s, i + 1, e);
    } else if e < s.len() {
        ax_nd(s[e]);
    }
}

pub proof fn lemma_one_space(s: VSeq<char>, i: int)
    requires
        0 <= i < s.len() - 1,
        s[i] == ' ',
        s[i + 1] == '-' || s[i + 1] == '+' || s[i + 1] == '@',
    ensures
        spaces_end(s, i) == i + 1,
{
    assert(ws(s[i]));
    assert(!ws(s[i + 1]));
    assert(spaces_end(s, i + 1) == i + 1);
}

/// a span written at a place is read back
pub proof fn lemma_span_at(s: VSeq<char>, i: int, start: usize, length: usize, short: bool)
    requires
        short ==> length == 1,
        0 <= i,
        i + span_form(start, length, short).len() < s.len(),
        forall|j: int| 0 <= j < span_form(start, length, short).len() ==> s[i + j] == #[trigger] span_form(start, length, short)[j],
        s[i + span_form(start, length, short).len()] == ' ',
    ensures
        span_at(s, i).is_some(),
        span_means(span_at(s, i).unwrap(), start, length, i + span_form(start, length, short).len()),
{
    reveal_strlit(",");
    let a = decimal(start as nat);
    let b = decimal(length as nat);
    let t = span_form(start, length, short);
    lemma_decimal(start as nat);
    lemma_decimal(length as nat);
    lemma_number(start);
    lemma_number(length);
    let e = i + a.len();
    assert forall|j: int| 0 <= j < a.len() implies s[i + j] == #[trigger] a[j] by {
        assert(t[j] == a[j]);
        assert(s[i + j] == t[j]);
    }
    assert forall|j: int| i <= j < e implies '0' <= #[trigger] s[j] <= '9' by {
        assert(s[i + (j - i)] == a[j - i]);
    }
    assert(s.subrange(i, e) =~= a) by {
        assert forall|j: int| 0 <= j < a.len() implies s.subrange(i, e)[j] == a[j] by {
            assert(s[i + j] == a[j]);
        }
    }
    if short {
        lemma_digits_end(s, i, e);
    } else {
        let f = e + 1 + b.len();
        assert(t.len() == a.len() + 1 + b.len());
        assert(t[a.len() as int] == ',');
        assert(s[i + a.len()] == t[a.len() as int]);
        lemma_digits_end(s, i, e);
        assert forall|j: int| 0 <= j < b.len() implies s[e + 1 + j] == #[trigger] b[j] by {
            assert(t[a.len() + 1 + j] == b[j]);
            assert(s[i + (a.len() + 1 + j)] == t[a.len() + 1 + j]);
        }
        assert forall|j: int| e + 1 <= j < f implies '0' <= #[trigger] s[j] <= '9' by {
            assert(s[e + 1 + (j - e - 1)] == b[j - e - 1]);
        }
        lemma_digits_end(s, e + 1, f);
        assert(s.subrange(e + 1, f) =~= b) by {
            assert forall|j: int| 0 <= j < b.len() implies s.subrange(e + 1, f)[j] == b[j] by {
                assert(s[e + 1 + j] == b[j]);
            }
        }
    }
}

pub open spec fn header_form(bs: usize, bl: usize, bshort: bool, als: usize, al: usize, ashort: bool) -> VSeq<char> {
    "@@ -"@ + span_form(bs, bl, bshort) + " +"@ + span_form(als, al, ashort) + " @@"@
}

pub open spec fn no_newline(s: VSeq<char>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> s[j] != '\n'
}

pub proof fn lemma_span_plain(start: usize, length: usize, short: bool)
    ensures
        span_form(start, length, short).len() > 0,
        no_newline(span_form(start, length, short)),
{
    reveal_strlit(",");
    lemma_decimal(start as nat);
    lemma_decimal(length as nat);
}

/// the expression matches a header so written, and finds its numbers
pub proof fn lemma_header_form(bs: usize, bl: usize, bshort: bool, als: usize, al: usize, ashort: bool)
    requires
        bshort ==> bl == 1,
        ashort ==> al == 1,
    ensures
        no_newline(header_form(bs, bl, bshort, als, al, ashort)),
        ({
            let g = header_groups(header_form(bs, bl, bshort, als, al, ashort).push('\n'));
            &&& g.is_some()
            &&& g.unwrap()[1].is_some()
            &&& g.unwrap()[4].is_some()
            &&& number(g.unwrap()[1].unwrap()) == Some(bs)
            &&& number(g.unwrap()[4].unwrap()) == Some(als)
            &&& g.unwrap()[3].is_none() ==> bl == 1
            &&& g.unwrap()[6].is_none() ==> al == 1
            &&& g.unwrap()[3].is_some() ==> number(g.unwrap()[3].unwrap()) == Some(bl)
            &&& g.unwrap()[6].is_some() ==> number(g.unwrap()[6].unwrap()) == Some(al)
        }),
{
    hide(span_form);
    hide(span_at);
    hide(number);
    hide(spaces_end);
    hide(digits_end);
    let p = span_form(bs, bl, bshort);
    let q = span_form(als, al, ashort);
    lemma_span_plain(bs, bl, bshort);
    lemma_span_plain(als, al, ashort);
    let h = header_form(bs, bl, bshort, als, al, ashort);
    let s = h.push('\n');
    let n = p.len() as int;
    let m = q.len() as int;
    lemma_layout(p, q);
    lemma_one_space(s, 2);
    lemma_span_at(s, 4, bs, bl, bshort);
    lemma_one_space(s, 4 + n);
    lemma_span_at(s, 6 + n, als, al, ashort);
    lemma_one_space(s, 6 + n + m);
    assert(tail_from(s, 9 + n + m, 9 + n + m));
    assert forall|j: int| 0 <= j < h.len() implies h[j] != '\n' by {
        assert(h[j] == s[j]);
        if 4 <= j < 4 + n {
            assert(s[4 + (j - 4)] == p[j - 4]);
        } else if 6 + n <= j < 6 + n + m {
            assert(s[6 + n + (j - 6 - n)] == q[j - 6 - n]);
        }
    }
}

/// where things are in a header
pub proof fn lemma_layout(p: VSeq<char>, q: VSeq<char>)
    ensures
        ({
            let s = ("@@ -"@ + p + " +"@ + q + " @@"@).push('\n');
            let n = p.len() as int;
            let m = q.len() as int;
            &&& s.len() == 10 + n + m
            &&& s[0] == '@' && s[1] == '@' && s[2] == ' ' && s[3] == '-'
            &&& forall|j: int| 0 <= j < n ==> s[4 + j] == #[trigger] p[j]
            &&& s[4 + n] == ' ' && s[5 + n] == '+'
            &&& forall|j: int| 0 <= j < m ==> s[6 + n + j] == #[trigger] q[j]
            &&& s[6 + n + m] == ' ' && s[7 + n + m] == '@' && s[8 + n + m] == '@' && s[9 + n + m] == '\n'
        }),
{
    reveal_strlit("@@ -");
    reveal_strlit(" +");
    reveal_strlit(" @@");
}
