@module file_line
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::header::{ax_nd, char_at, nd, no_newline, spaces_end, ws};
@top
/// ---------- what BEFORE_PATH_REGEX and AFTER_PATH_REGEX (pinned) match ----------
/// a character of a picture: `d` stands for a digit, `A` and `a` for a letter from A to Z or a to z, `+` for a sign,
/// anything else for itself
pub open spec fn like(c: char, p: char) -> bool {
    if p == 'd' {
        nd(c)
    } else if p == 'A' {
        'A' <= c <= 'Z'
    } else if p == 'a' {
        'a' <= c <= 'z'
    } else if p == '+' {
        c == '+' || c == '-'
    } else {
        c == p
    }
}

/// `p` is a picture of what stands at `i`
pub open spec fn pictured(s: VSeq<char>, i: int, p: VSeq<char>) -> bool {
    &&& 0 <= i
    &&& i + p.len() <= s.len()
    &&& forall|j: int| 0 <= j < p.len() ==> like(s[i + j], #[trigger] p[j])
}

pub open spec fn iso() -> VSeq<char> {
    "dddd-dd-dd dd:dd:dd +dddd"@
}

pub open spec fn iso_nanos() -> VSeq<char> {
    "dddd-dd-dd dd:dd:dd.ddddddddd +dddd"@
}

pub open spec fn long() -> VSeq<char> {
    "Aaa Aaa dd dd:dd:dd dddd +dddd"@
}

/// a time stamp in one of the forms, and nothing else
pub open spec fn is_stamp(t: VSeq<char>) -> bool {
    ||| t.len() == iso().len() && pictured(t, 0, iso())
    ||| t.len() == iso_nanos().len() && pictured(t, 0, iso_nanos())
    ||| t.len() == long().len() && pictured(t, 0, long())
}

/// the time stamp that starts at `i`: no two forms fit at one place
pub open spec fn stamp_at(s: VSeq<char>, i: int) -> Option<VSeq<char>> {
    if pictured(s, i, iso()) {
        Some(s.subrange(i, i + iso().len()))
    } else if pictured(s, i, iso_nanos()) {
        Some(s.subrange(i, i + iso_nanos().len()))
    } else if pictured(s, i, long()) {
        Some(s.subrange(i, i + long().len()))
    } else {
        None
    }
}

/// the first place from `i` that has a quote, or the end
pub open spec fn quote_from(s: VSeq<char>, i: int) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && s[i] != '"' { quote_from(s, i + 1) } else { i }
}

/// the first place from `i` that has white space, or the end
pub open spec fn word_end(s: VSeq<char>, i: int) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && !ws(s[i]) { word_end(s, i + 1) } else { i }
}

/// `\s+(...)?(.*)(\n)?$` from here on: there is space, and after it no newline but as the last character
pub open spec fn rest_at(s: VSeq<char>, i: int) -> bool {
    let k = spaces_end(s, i);
    k > i && forall|j: int| k <= j < s.len() - 1 ==> #[trigger] s[j] != '\n'
}

/// `"([^"]+)"` at 4, and the rest after it
pub open spec fn quoted(s: VSeq<char>) -> bool {
    let q = quote_from(s, 5);
    char_at(s, 4, '"') && q > 5 && char_at(s, q, '"') && rest_at(s, q + 1)
}

/// `(\S+)` at 4, and the rest after it
pub open spec fn bare(s: VSeq<char>) -> bool {
    word_end(s, 4) > 4 && rest_at(s, word_end(s, 4))
}

pub open spec fn has_mark(s: VSeq<char>, mark: char) -> bool {
    char_at(s, 0, mark) && char_at(s, 1, mark) && char_at(s, 2, mark) && char_at(s, 3, ' ')
}

/// the groups 0 to 4 of `^--- ("([^"]+)"|(\S+))\s+(STAMP)?(.*)(\n)?$` (or `+++`) in a line it matches: the first
/// alternative is preferred; `\s+` takes all the space there is, as giving some back never helps
pub open spec fn path_groups(s: VSeq<char>, mark: char) -> Option<VSeq<Option<VSeq<char>>>> {
    if !has_mark(s, mark) {
        None
    } else if quoted(s) {
        let q = quote_from(s, 5);
        Some(seq![Some(s), Some(s.subrange(4, q + 1)), Some(s.subrange(5, q)), None, stamp_at(s, spaces_end(s, q + 1))])
    } else if bare(s) {
        let e = word_end(s, 4);
        Some(seq![Some(s), Some(s.subrange(4, e)), None, Some(s.subrange(4, e)), stamp_at(s, spaces_end(s, e))])
    } else {
        None
    }
}

/// ---------- what a file line says ----------
pub ghost struct Named {
    pub path: VSeq<char>,
    pub stamp: Option<VSeq<char>>,
}

pub open spec fn named(s: VSeq<char>, mark: char) -> Option<Named> {
    if !has_mark(s, mark) {
        None
    } else if quoted(s) {
        let q = quote_from(s, 5);
        Some(Named { path: s.subrange(5, q), stamp: stamp_at(s, spaces_end(s, q + 1)) })
    } else if bare(s) {
        let e = word_end(s, 4);
        Some(Named { path: s.subrange(4, e), stamp: stamp_at(s, spaces_end(s, e)) })
    } else {
        None
    }
}

/// a path that can be written as it is, and one that can be written in quotes
pub open spec fn is_word(p: VSeq<char>) -> bool {
    p.len() > 0 && p[0] != '"' && forall|j: int| 0 <= j < p.len() ==> !ws(#[trigger] p[j])
}

pub open spec fn is_quotable(p: VSeq<char>) -> bool {
    p.len() > 0 && forall|j: int| 0 <= j < p.len() ==> #[trigger] p[j] != '"'
}

pub open spec fn mark_of(mark: char) -> VSeq<char> {
    seq![mark, mark, mark, ' ']
}

/// `--- PATH` tab, time stamp or any other remark, newline
pub open spec fn file_line(mark: char, path: VSeq<char>, in_quotes: bool, remark: VSeq<char>) -> VSeq<char> {
    mark_of(mark) + (if in_quotes { seq!['"'] + path + seq!['"'] } else { path }) + seq!['\t'] + remark + seq!['\n']
}

pub proof fn lemma_quote_from(s: VSeq<char>, i: int, q: int)
    requires
        0 <= i <= q < s.len(),
        s[q] == '"',
        forall|j: int| i <= j < q ==> #[trigger] s[j] != '"',
    ensures
        quote_from(s, i) == q,
    decreases q - i,
{
    if i < q {
        assert(s[i] != '"');
        lemma_quote_from(s, i + 1, q);
    }
}

pub proof fn lemma_word_end(s: VSeq<char>, i: int, e: int)
    requires
        0 <= i <= e < s.len(),
        ws(s[e]),
        forall|j: int| i <= j < e ==> !ws(#[trigger] s[j]),
    ensures
        word_end(s, i) == e,
    decreases e - i,
{
    if i < e {
        assert(!ws(s[i]));
        lemma_word_end(s, i + 1, e);
    }
}

/// what stands at a place is pictured as it is on its own
pub proof fn lemma_pictured(s: VSeq<char>, i: int, t: VSeq<char>, p: VSeq<char>)
    requires
        0 <= i,
        i + t.len() <= s.len(),
        p.len() <= t.len(),
        forall|j: int| 0 <= j < t.len() ==> s[i + j] == #[trigger] t[j],
    ensures
        pictured(s, i, p) == pictured(t, 0, p),
{
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] like(s[i + j], p[j]) == like(t[0 + j], p[j]) by {
        assert(s[i + j] == t[j]);
    }
    if pictured(s, i, p) {
        assert forall|j: int| 0 <= j < p.len() implies like(t[0 + j], #[trigger] p[j]) by {
            assert(like(s[i + j], p[j]) == like(t[0 + j], p[j]));
        }
    }
    if pictured(t, 0, p) {
        assert forall|j: int| 0 <= j < p.len() implies like(s[i + j], #[trigger] p[j]) by {
            assert(like(s[i + j], p[j]) == like(t[0 + j], p[j]));
        }
    }
}

/// the forms exclude each other: where a stamp of one form stands, that is the one found
pub proof fn lemma_stamp_at(s: VSeq<char>, i: int, t: VSeq<char>)
    requires
        is_stamp(t),
        0 <= i,
        i + t.len() <= s.len(),
        forall|j: int| 0 <= j < t.len() ==> s[i + j] == #[trigger] t[j],
    ensures
        stamp_at(s, i) == Some(t),
{
    reveal_strlit("dddd-dd-dd dd:dd:dd +dddd");
    reveal_strlit("dddd-dd-dd dd:dd:dd.ddddddddd +dddd");
    reveal_strlit("Aaa Aaa dd dd:dd:dd dddd +dddd");
    assert(s.subrange(i, i + t.len()) =~= t);
    if t.len() == iso().len() && pictured(t, 0, iso()) {
        lemma_pictured(s, i, t, iso());
    } else if t.len() == iso_nanos().len() && pictured(t, 0, iso_nanos()) {
        lemma_pictured(s, i, t, iso_nanos());
        assert(like(t[0int + 19], iso_nanos()[19]));
        assert(s[i + 19] == t[19]);
        if pictured(s, i, iso()) {
            assert(like(s[i + 19], iso()[19]));
        }
    } else {
        lemma_pictured(s, i, t, long());
        assert(like(t[0int + 0], long()[0]));
        assert(s[i + 0] == t[0]);
        ax_nd(t[0]);
        if pictured(s, i, iso()) {
            assert(like(s[i + 0], iso()[0]));
        }
        if pictured(s, i, iso_nanos()) {
            assert(like(s[i + 0], iso_nanos()[0]));
        }
    }
}

/// no white space in front of a stamp, and no newline in it
pub proof fn lemma_stamp_plain(t: VSeq<char>)
    requires
        is_stamp(t),
    ensures
        t.len() > 0,
        !ws(t[0]),
        no_newline(t),
{
    reveal_strlit("dddd-dd-dd dd:dd:dd +dddd");
    reveal_strlit("dddd-dd-dd dd:dd:dd.ddddddddd +dddd");
    reveal_strlit("Aaa Aaa dd dd:dd:dd dddd +dddd");
    let p = if t.len() == iso().len() && pictured(t, 0, iso()) {
        iso()
    } else if t.len() == iso_nanos().len() && pictured(t, 0, iso_nanos()) {
        iso_nanos()
    } else {
        long()
    };
    assert(like(t[0int + 0], p[0]));
    ax_nd(t[0]);
    assert forall|j: int| 0 <= j < t.len() implies t[j] != '\n' by {
        assert(like(t[0 + j], p[j]));
        ax_nd('\n');
        assert(ws('\n'));
    }
}

/// what follows the tab of a file line
pub proof fn lemma_rest(s: VSeq<char>, i: int, remark: VSeq<char>)
    requires
        0 <= i,
        s.len() == i + 1 + remark.len() + 1,
        s[i] == '\t',
        forall|j: int| 0 <= j < remark.len() ==> s[i + 1 + j] == #[trigger] remark[j],
        s.last() == '\n',
        no_newline(remark),
    ensures
        rest_at(s, i),
        remark.len() > 0 && !ws(remark[0]) ==> spaces_end(s, i) == i + 1,
        remark.len() == 0 ==> spaces_end(s, i) == s.len(),
{
    assert(ws(s[i]));
    lemma_spaces_end(s, i + 1);
    let k = spaces_end(s, i);
    assert(k == spaces_end(s, i + 1));
    assert forall|j: int| k <= j < s.len() - 1 implies #[trigger] s[j] != '\n' by {
        assert(s[i + 1 + (j - i - 1)] == remark[j - i - 1]);
    }
    if remark.len() > 0 {
        assert(s[i + 1 + 0] == remark[0]);
    } else {
        assert(s[i + 1] == '\n');
        assert(spaces_end(s, i + 2) == i + 2);
    }
}

pub proof fn lemma_spaces_end(s: VSeq<char>, i: int)
    requires
        0 <= i <= s.len(),
    ensures
        i <= spaces_end(s, i) <= s.len(),
    decreases s.len() - i,
{
    if i < s.len() && ws(s[i]) {
        lemma_spaces_end(s, i + 1);
    }
}

/// C25: a path written in a file line, with or without a time stamp, is read back as it is
pub proof fn theorem_file_line(mark: char, path: VSeq<char>, in_quotes: bool, stamp: Option<VSeq<char>>)
    requires
        if in_quotes { is_quotable(path) } else { is_word(path) },
        stamp is Some ==> is_stamp(stamp->Some_0),
    ensures
        named(file_line(mark, path, in_quotes, if stamp is Some { stamp->Some_0 } else { VSeq::empty() }), mark) == Some(Named { path, stamp }),
{
    let remark: VSeq<char> = if stamp is Some { stamp->Some_0 } else { VSeq::empty() };
    let s = file_line(mark, path, in_quotes, remark);
    let n = path.len() as int;
    assert(s[0] == mark && s[1] == mark && s[2] == mark && s[3] == ' ');
    if stamp is Some {
        lemma_stamp_plain(remark);
    }
    let from = if in_quotes { 5int } else { 4int };
    let i = if in_quotes { 4 + n + 2 } else { 4 + n };
    assert(s.len() == i + 1 + remark.len() + 1);
    assert(s[i] == '\t');
    assert(s.last() == '\n');
    assert forall|j: int| 0 <= j < remark.len() implies s[i + 1 + j] == #[trigger] remark[j] by {}
    assert forall|j: int| 0 <= j < n implies s[from + j] == #[trigger] path[j] by {}
    assert(s.subrange(from, from + n) =~= path);
    lemma_rest(s, i, remark);
    if in_quotes {
        assert(s[4] == '"' && s[5 + n] == '"');
        assert forall|j: int| 5 <= j < 5 + n implies #[trigger] s[j] != '"' by {
            assert(s[5 + (j - 5)] == path[j - 5]);
        }
        lemma_quote_from(s, 5, 5 + n);
    } else {
        assert(s[4int + 0] == path[0]);
        assert forall|j: int| 4 <= j < 4 + n implies !ws(#[trigger] s[j]) by {
            assert(s[4 + (j - 4)] == path[j - 4]);
        }
        assert(ws(s[i]));
        lemma_word_end(s, 4, 4 + n);
    }
    if stamp is Some {
        lemma_stamp_at(s, i + 1, remark);
    } else {
        reveal_strlit("dddd-dd-dd dd:dd:dd +dddd");
        reveal_strlit("dddd-dd-dd dd:dd:dd.ddddddddd +dddd");
        reveal_strlit("Aaa Aaa dd dd:dd:dd dddd +dddd");
    }
}
