@module unified pw_cub_diff_lib/src/unified_diff.rs pw_cub_diff_lib/src/lib.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::changes::*;
use crate::sequence::Seq;
use crate::patch::*;
use crate::apply_text::*;
use crate::cub_text_diff::*;
use crate::header::*;
use crate::file_line::*;
use std::fmt::{Display, Formatter};
use std::str::FromStr;
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::ax_to_string, crate::prelude::lemma_flat_push, crate::prelude::group_lines};
@pin macro CLUMP_HEADER_REGEX
pub static ref CLUMP_HEADER_REGEX: Regex = Regex::new(r"^@@\s+-(\d+)(,(\d+))?\s+\+(\d+)(,(\d+))?\s+@@\s*(.*)(\n)?$").unwrap();
@pin macro BEFORE_PATH_REGEX
pub static ref BEFORE_PATH_REGEX: Regex =
    Regex::new(&format!(r"^--- ({PATH_RE_STR})\s+({TIMESTAMP_RE_STR}|{ALT_TIMESTAMP_RE_STR})?(.*)(\n)?$")).unwrap();
@pin macro AFTER_PATH_REGEX
pub static ref AFTER_PATH_REGEX: Regex =
    Regex::new(&format!(r"^\+\+\+ ({PATH_RE_STR})\s+({TIMESTAMP_RE_STR}|{ALT_TIMESTAMP_RE_STR})?(.*)(\n)?$")).unwrap();
@pin const TIMESTAMP_RE_STR
pub const TIMESTAMP_RE_STR: &str = r"\d{4}-\d{2}-\d{2} \d{2}:\d{2}:\d{2}(\.\d{9})? [-+]{1}\d{4}";
@pin const ALT_TIMESTAMP_RE_STR
pub const ALT_TIMESTAMP_RE_STR: &str =
    r"[A-Z][a-z]{2} [A-Z][a-z]{2} \d{2} \d{2}:\d{2}:\d{2} \d{4} [-+]{1}\d{4}";
@pin const PATH_RE_STR
pub const PATH_RE_STR: &str = r###""([^"]+)"|(\S+)"###;
@top
/// ---------- the header ----------
/// a header line (but for its newline) that announces this
pub open spec fn heads(h: StartsAndLengths, t: VSeq<char>) -> bool {
    announced(t.push('\n')) == Some(h) && no_newline(t)
}

/// a header as it may be written: the length may be left out if it is 1
pub open spec fn form(h: StartsAndLengths, bshort: bool, ashort: bool) -> VSeq<char> {
    header_form(h.before.start, h.before.length, bshort, h.after.start, h.after.length, ashort)
}

pub proof fn lemma_form(h: StartsAndLengths, bshort: bool, ashort: bool)
    requires
        bshort ==> h.before.length == 1,
        ashort ==> h.after.length == 1,
    ensures
        heads(h, form(h, bshort, ashort)),
{
    lemma_header_form(h.before.start, h.before.length, bshort, h.after.start, h.after.length, ashort);
}

/// what `{}` makes of a value is what its Display writes, which `heads` (Display for StartsAndLengths::fmt)
pub uninterp spec fn shown_header(h: StartsAndLengths) -> VSeq<char>;

pub broadcast axiom fn ax_shown(h: StartsAndLengths)
    ensures
        heads(h, #[trigger] shown_header(h)),
;

/// stand-ins for the types of the regex crate
#[verifier::external_body]
pub struct Captures<'a> {
    a: &'a str,
}

#[verifier::external_body]
pub struct Match<'a> {
    a: &'a str,
}

impl<'a> Captures<'a> {
    pub uninterp spec fn groups(&self) -> VSeq<Option<VSeq<char>>>;

    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>)
        ensures
            i < self.groups().len() ==> r.is_some() == self.groups()[i as int].is_some(),
            i < self.groups().len() && r.is_some() ==> r.unwrap().text() == self.groups()[i as int].unwrap(),
    {
        unimplemented!()
    }
}

impl<'a> Match<'a> {
    pub uninterp spec fn text(&self) -> VSeq<char>;

    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures
            r@ == self.text(),
    {
        unimplemented!()
    }
}

pub struct HeaderRegex;

pub const CLUMP_HEADER_REGEX: HeaderRegex = HeaderRegex;

impl HeaderRegex {
    #[verifier::external_body]
    pub fn captures<'a>(&self, line: &'a str) -> (r: Option<Captures<'a>>)
        ensures
            r.is_some() == header_groups(line@).is_some(),
            r.is_some() ==> r.unwrap().groups() == header_groups(line@).unwrap(),
    {
        unimplemented!()
    }
}

pub struct BeforePathRegex;

pub const BEFORE_PATH_REGEX: BeforePathRegex = BeforePathRegex;

impl BeforePathRegex {
    #[verifier::external_body]
    pub fn captures<'a>(&self, line: &'a str) -> (r: Option<Captures<'a>>)
        ensures
            r.is_some() == path_groups(line@, '-').is_some(),
            r.is_some() ==> r.unwrap().groups() == path_groups(line@, '-').unwrap(),
    {
        unimplemented!()
    }
}

pub struct AfterPathRegex;

pub const AFTER_PATH_REGEX: AfterPathRegex = AfterPathRegex;

impl AfterPathRegex {
    #[verifier::external_body]
    pub fn captures<'a>(&self, line: &'a str) -> (r: Option<Captures<'a>>)
        ensures
            r.is_some() == path_groups(line@, '+').is_some(),
            r.is_some() ==> r.unwrap().groups() == path_groups(line@, '+').unwrap(),
    {
        unimplemented!()
    }
}

/// the path and the time stamp are those
pub open spec fn says(p: PathAndTimestamp, path: VSeq<char>, stamp: Option<VSeq<char>>) -> bool {
    &&& p.file_path@ == path
    &&& p.time_stamp.is_some() == stamp.is_some()
    &&& stamp.is_some() ==> p.time_stamp.unwrap()@ == stamp.unwrap()
}

pub open spec fn says_so(p: Option<PathAndTimestamp>, n: Option<Named>) -> bool {
    &&& p.is_some() == n.is_some()
    &&& p.is_some() ==> says(p.unwrap(), n.unwrap().path, n.unwrap().stamp)
}

pub assume_specification[ <usize as FromStr>::from_str ](s: &str) -> (r: Result<usize, std::num::ParseIntError>)
    ensures
        r.is_ok() == number(s@).is_some(),
        r.is_ok() ==> r.unwrap() == number(s@).unwrap(),
;

/// a line count: absent means 1
pub open spec fn span_of(g: VSeq<Option<VSeq<char>>>, i: int, j: int) -> Option<StartAndLength> {
    if g[i].is_some() && number(g[i].unwrap()).is_some() {
        if g[j].is_none() {
            Some(StartAndLength { start: number(g[i].unwrap()).unwrap(), length: 1 })
        } else if number(g[j].unwrap()).is_some() {
            Some(StartAndLength { start: number(g[i].unwrap()).unwrap(), length: number(g[j].unwrap()).unwrap() })
        } else {
            None
        }
    } else {
        None
    }
}

/// what a header line announces
pub open spec fn announced(line: VSeq<char>) -> Option<StartsAndLengths> {
    match header_groups(line) {
        Some(g) => match (span_of(g, 1, 3), span_of(g, 4, 6)) {
            (Some(before), Some(after)) => Some(StartsAndLengths { before, after }),
            _ => None,
        },
        None => None,
    }
}

/// ---------- the lines of a clump ----------
/// what some lines after a header hold
pub ghost struct Walk {
    pub b: VSeq<VSeq<char>>,
    pub a: VSeq<VSeq<char>>,
    /// marker of the last line, 'X' if there is none to remove a newline from
    pub last: char,
    /// every line is one a clump may have
    pub ok: bool,
    /// context lines before the first and after the last change
    pub front: nat,
    pub tail: nat,
    pub changed: bool,
}

/// the last line has no newline
pub open spec fn chopped(s: VSeq<VSeq<char>>) -> VSeq<VSeq<char>> {
    if s.len() == 0 {
        s
    } else {
        s.drop_last().push(if s.last().len() > 0 && s.last().last() == '\n' { s.last().drop_last() } else { s.last() })
    }
}


/// one more line
pub open spec fn step(w: Walk, l: VSeq<char>) -> Walk {
    if marked(l, '-') {
        Walk { b: w.b.push(l.skip(1)), last: '-', tail: 0, changed: true, ..w }
    } else if marked(l, '+') {
        Walk { a: w.a.push(l.skip(1)), last: '+', tail: 0, changed: true, ..w }
    } else if marked(l, ' ') {
        Walk {
            b: w.b.push(l.skip(1)),
            a: w.a.push(l.skip(1)),
            last: ' ',
            front: if w.changed { w.front } else { w.front + 1 },
            tail: if w.changed { w.tail + 1 } else { w.tail },
            ..w
        }
    } else if marked(l, '\\') && w.last != 'X' {
        Walk {
            b: if w.last != '+' { chopped(w.b) } else { w.b },
            a: if w.last != '-' { chopped(w.a) } else { w.a },
            last: 'X',
            ..w
        }
    } else {
        Walk { ok: false, ..w }
    }
}

/// what the first n of the lines hold
pub open spec fn walk(l: VSeq<String>, n: int) -> Walk
    decreases n,
{
    if n <= 0 {
        Walk { b: VSeq::empty(), a: VSeq::empty(), last: 'X', ok: true, front: 0, tail: 0, changed: false }
    } else {
        step(walk(l, n - 1), l[n - 1]@)
    }
}

/// the first n lines add up to the header
pub open spec fn adds_up(l: VSeq<String>, n: int, s: StartsAndLengths) -> bool {
    &&& 0 <= n <= l.len()
    &&& walk(l, n).ok
    &&& walk(l, n).b.len() == s.before.length
    &&& walk(l, n).a.len() == s.after.length
}

/// the line says that the one before it has no newline
pub open spec fn marker_next(l: VSeq<String>, n: int) -> bool {
    walk(l, n).last != 'X' && n < l.len() && marked(l[n]@, '\\')
}


pub open spec fn at_most_255(n: nat) -> u8 {
    if n <= 255 { n as u8 } else { 255 }
}
/// the markers as the code spells them
pub proof fn lemma_markers()
    ensures
        "X"@ == VSeq::empty().push('X'),
        "-"@ == VSeq::empty().push('-'),
        "+"@ == VSeq::empty().push('+'),
        " "@ == VSeq::empty().push(' '),
        "-"@ != "+"@,
        forall|c: char, d: char| #[trigger] VSeq::empty().push(c) == #[trigger] VSeq::empty().push(d) ==> c == d,
{
    reveal_strlit("X");
    reveal_strlit("-");
    reveal_strlit("+");
    reveal_strlit(" ");
    assert("X"@ =~= VSeq::empty().push('X'));
    assert("-"@ =~= VSeq::empty().push('-'));
    assert("+"@ =~= VSeq::empty().push('+'));
    assert(" "@ =~= VSeq::empty().push(' '));
    assert("-"@[0] == '-');
    assert("+"@[0] == '+');
    assert forall|c: char, d: char| #[trigger] VSeq::empty().push(c) == #[trigger] VSeq::empty().push(d) implies c == d by {
        assert(VSeq::empty().push(c)[0] == c);
        assert(VSeq::empty().push(d)[0] == d);
    }
}

/// counts only grow, and a line that does not belong stays
pub proof fn lemma_walk_grows(l: VSeq<String>, m: int, n: int)
    requires
        0 <= m <= n <= l.len(),
    ensures
        walk(l, m).b.len() <= walk(l, n).b.len(),
        walk(l, m).a.len() <= walk(l, n).a.len(),
        !walk(l, m).ok ==> !walk(l, n).ok,
    decreases n - m,
{
    if m < n {
        lemma_walk_grows(l, m, n - 1);
    }
}

/// the clump is as its header says
pub open spec fn full(l: VSeq<String>, n: int, s: StartsAndLengths) -> bool {
    walk(l, n).b.len() >= s.before.length && walk(l, n).a.len() >= s.after.length
}

/// the lines after a header
pub open spec fn following(lines: VSeq<String>, i: int) -> VSeq<String> {
    lines.skip(i + 1)
}

/// no number of lines adds up to the header
pub open spec fn refused(l: VSeq<String>, s: StartsAndLengths) -> bool {
    forall|n: int| !#[trigger] adds_up(l, n, s)
}

/// nothing adds up if the first line to complete the counts does not
pub proof fn lemma_no_sum(l: VSeq<String>, n: int, s: StartsAndLengths)
    requires
        0 <= n <= l.len(),
        forall|k: int| 0 <= k < n ==> !#[trigger] full(l, k, s),
        !walk(l, n).ok || walk(l, n).b.len() > s.before.length || walk(l, n).a.len() > s.after.length || (n == l.len() && !full(l, n, s)),
    ensures
        refused(l, s),
{
    assert forall|k: int| !#[trigger] adds_up(l, k, s) by {
        if 0 <= k <= l.len() {
            if k < n {
                assert(!full(l, k, s));
            } else {
                lemma_walk_grows(l, n, k);
            }
        }
    }
}

/// the clump holds what the lines after its header say
pub open spec fn parsed(l: VSeq<String>, c: UnifiedDiffClump) -> bool {
    let n = c.lines_consumed - 1;
    &&& adds_up(l, n, c.starts_and_lengths)
    &&& !marker_next(l, n)
    &&& views(c.before_lines@) == walk(l, n).b
    &&& views(c.after_lines@) == walk(l, n).a
    &&& c.context_lengths.0 == at_most_255(walk(l, n).front)
    &&& c.context_lengths.1 == at_most_255(walk(l, n).tail)
    &&& c.proper()
}

/// line index for a start from a header (lines are counted from 1; with no lines, it is the line before)
pub open spec fn index_of(s: StartAndLength) -> int {
    if s.length == 0 || s.start == 0 { s.start as int } else { s.start - 1 }
}
/// ---------- a rendered clump ----------
pub open spec fn has_newline(l: VSeq<char>) -> bool {
    l.len() > 0 && l.last() == '\n'
}

/// a line with its marker, and the no-newline marker if it needs one
pub open spec fn shown_line(m: char, l: VSeq<char>) -> VSeq<char> {
    if has_newline(l) {
        VSeq::empty().push(m) + l
    } else {
        VSeq::empty().push(m) + l + "\n\\\n"@
    }
}

/// marked lines one after the other
pub open spec fn shown_lines(items: VSeq<(char, String)>) -> VSeq<char>
    decreases items.len(),
{
    if items.len() == 0 {
        VSeq::empty()
    } else {
        shown_lines(items.drop_last()) + shown_line(items.last().0, items.last().1@)
    }
}

/// the lines with one of two markers
pub open spec fn sel(items: VSeq<(char, String)>, m: char, n: char) -> VSeq<String>
    decreases items.len(),
{
    if items.len() == 0 {
        VSeq::empty()
    } else if items.last().0 == m || items.last().0 == n {
        sel(items.drop_last(), m, n).push(items.last().1)
    } else {
        sel(items.drop_last(), m, n)
    }
}

/// the given lines, all with this marker
pub open spec fn tagged(m: char, s: VSeq<String>) -> VSeq<(char, String)> {
    VSeq::new(s.len(), |i: int| (m, s[i]))
}

pub proof fn lemma_tagged_ends(x: VSeq<(char, String)>, m: char, s: VSeq<String>)
    ensures
        x + tagged(m, s.take(0)) == x,
        s.take(s.len() as int) == s,
{
    assert(x + tagged(m, s.take(0)) =~= x);
    assert(s.take(s.len() as int) =~= s);
}

pub proof fn lemma_tagged_step(x: VSeq<(char, String)>, m: char, s: VSeq<String>, k: int)
    requires
        0 <= k < s.len(),
    ensures
        shown_lines(x + tagged(m, s.take(k + 1))) == shown_lines(x + tagged(m, s.take(k))) + shown_line(m, s[k]@),
{
    let t = x + tagged(m, s.take(k + 1));
    assert(t.drop_last() =~= x + tagged(m, s.take(k)));
    assert(t.last() == (m, s[k]));
}

pub proof fn lemma_sel_tagged(x: VSeq<(char, String)>, m: char, s: VSeq<String>, p: char, q: char)
    ensures
        sel(x + tagged(m, s), p, q) == sel(x, p, q) + (if m == p || m == q { s } else { VSeq::empty() }),
    decreases s.len(),
{
    let t = x + tagged(m, s);
    if s.len() == 0 {
        assert(t =~= x);
        assert(sel(x, p, q) + s =~= sel(x, p, q));
        assert(sel(x, p, q) + VSeq::empty() =~= sel(x, p, q));
    } else {
        assert(t.drop_last() =~= x + tagged(m, s.drop_last()));
        assert(t.last() == (m, s.last()));
        lemma_sel_tagged(x, m, s.drop_last(), p, q);
        assert((sel(x, p, q) + s.drop_last()).push(s.last()) =~= sel(x, p, q) + s);
    }
}

/// what the first k entries leave unchanged, remove and add
pub open spec fn kept(b: VSeq<String>, cs: VSeq<Change>, k: int) -> VSeq<String>
    decreases k,
{
    if k <= 0 {
        VSeq::empty()
    } else if is_nc(cs[k - 1]) {
        kept(b, cs, k - 1) + b.subrange(cs[k - 1].sp_start(false), cs[k - 1].sp_end(false))
    } else {
        kept(b, cs, k - 1)
    }
}

pub open spec fn removed(b: VSeq<String>, cs: VSeq<Change>, k: int) -> VSeq<String>
    decreases k,
{
    if k <= 0 {
        VSeq::empty()
    } else if is_nc(cs[k - 1]) {
        removed(b, cs, k - 1)
    } else {
        removed(b, cs, k - 1) + b.subrange(cs[k - 1].sp_start(false), cs[k - 1].sp_end(false))
    }
}

pub open spec fn added(a: VSeq<String>, cs: VSeq<Change>, k: int) -> VSeq<String>
    decreases k,
{
    if k <= 0 {
        VSeq::empty()
    } else if is_nc(cs[k - 1]) {
        added(a, cs, k - 1)
    } else {
        added(a, cs, k - 1) + a.subrange(cs[k - 1].sp_start(true), cs[k - 1].sp_end(true))
    }
}

/// the entries lie in the inputs and follow one another
pub open spec fn extents_ok(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>) -> bool {
    &&& cs.len() > 0
    &&& b.len() <= isize::MAX
    &&& a.len() <= isize::MAX
    &&& tiled(cs, start_of(cs, false), start_of(cs, true))
    &&& 0 <= start_of(cs, false)
    &&& 0 <= start_of(cs, true)
    &&& forall|k: int| 0 <= k < cs.len() ==> piece_ok(b, a, #[trigger] cs[k])
}

/// lines of the inputs with markers
pub open spec fn proper_items(b: VSeq<String>, a: VSeq<String>, items: VSeq<(char, String)>) -> bool {
    forall|i: int| 0 <= i < items.len() ==> proper_item(b, a, #[trigger] items[i])
}

pub open spec fn proper_item(b: VSeq<String>, a: VSeq<String>, x: (char, String)) -> bool {
    &&& x.0 == ' ' || x.0 == '-' || x.0 == '+'
    &&& b.contains(x.1) || a.contains(x.1)
}

/// the lines rendered for the first k entries
pub open spec fn items_for(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, k: int, items: VSeq<(char, String)>) -> bool {
    &&& 0 <= k <= cs.len()
    &&& start_of(cs, false) <= pos(cs, k, start_of(cs, false), false) <= b.len()
    &&& start_of(cs, true) <= pos(cs, k, start_of(cs, true), true) <= a.len()
    &&& sel(items, ' ', '-') == b.subrange(start_of(cs, false), pos(cs, k, start_of(cs, false), false))
    &&& sel(items, ' ', '+') == a.subrange(start_of(cs, true), pos(cs, k, start_of(cs, true), true))
    &&& sel(items, ' ', ' ') == kept(b, cs, k)
    &&& sel(items, '-', '-') == removed(b, cs, k)
    &&& sel(items, '+', '+') == added(a, cs, k)
    &&& proper_items(b, a, items)
}

/// what the lines of one entry add to a selection
pub open spec fn chosen(m: char, s: VSeq<String>, p: char, q: char) -> VSeq<String> {
    if m == p || m == q { s } else { VSeq::empty() }
}

pub proof fn lemma_sel_two(x: VSeq<(char, String)>, m: char, s: VSeq<String>, n: char, t: VSeq<String>, p: char, q: char)
    ensures
        sel(x + tagged(m, s), p, q) == sel(x, p, q) + chosen(m, s, p, q),
        sel(x + tagged(m, s) + tagged(n, t), p, q) == sel(x, p, q) + chosen(m, s, p, q) + chosen(n, t, p, q),
        sel(x, p, q) + VSeq::empty() == sel(x, p, q),
        sel(x, p, q) + chosen(m, s, p, q) + VSeq::empty() == sel(x, p, q) + chosen(m, s, p, q),
{
    lemma_sel_tagged(x, m, s, p, q);
    lemma_sel_tagged(x + tagged(m, s), n, t, p, q);
    assert(sel(x, p, q) + VSeq::empty() =~= sel(x, p, q));
    assert(sel(x, p, q) + chosen(m, s, p, q) + VSeq::empty() =~= sel(x, p, q) + chosen(m, s, p, q));
}

/// the lines of an entry
pub open spec fn entry_items(b: VSeq<String>, a: VSeq<String>, c: Change, x: VSeq<(char, String)>, y: VSeq<(char, String)>) -> bool {
    let bs = b.subrange(c.sp_start(false), c.sp_end(false));
    let aa = a.subrange(c.sp_start(true), c.sp_end(true));
    match c {
        Change::NoChange(_) => y == x + tagged(' ', bs),
        Change::Delete(_, _) => y == x + tagged('-', bs),
        Change::Insert(_, _) => y == x + tagged('+', aa),
        Change::Replace(_, _) => y == x + tagged('-', bs) + tagged('+', aa) || y == x + tagged('+', aa) + tagged('-', bs),
    }
}

/// the lines of an entry which belong to a selection
pub open spec fn entry_sel(b: VSeq<String>, a: VSeq<String>, c: Change, p: char, q: char) -> VSeq<String> {
    let bs = b.subrange(c.sp_start(false), c.sp_end(false));
    let aa = a.subrange(c.sp_start(true), c.sp_end(true));
    if p == ' ' && q == '-' {
        bs
    } else if p == ' ' && q == '+' {
        aa
    } else if is_nc(c) == (p == ' ') {
        if p == '+' { aa } else { bs }
    } else {
        VSeq::empty()
    }
}

pub proof fn lemma_entry_sel(b: VSeq<String>, a: VSeq<String>, c: Change, x: VSeq<(char, String)>, y: VSeq<(char, String)>, p: char, q: char)
    requires
        piece_ok(b, a, c),
        entry_items(b, a, c, x, y),
        p == ' ' || p == '-' || p == '+',
        q == p || (p == ' ' && (q == '-' || q == '+')),
    ensures
        sel(y, p, q) == sel(x, p, q) + entry_sel(b, a, c, p, q),
{
    let bs = b.subrange(c.sp_start(false), c.sp_end(false));
    let aa = a.subrange(c.sp_start(true), c.sp_end(true));
    lemma_sel_two(x, '-', bs, '+', aa, p, q);
    lemma_sel_two(x, '+', aa, '-', bs, p, q);
    lemma_sel_two(x, ' ', bs, ' ', bs, p, q);
    match c {
        Change::NoChange(n) => {
            assert(bs =~= aa) by {
                assert forall|i: int| 0 <= i < bs.len() implies bs[i] == aa[i] by {
                    assert(common(b, a, n.0 + i, n.1 + i));
                }
            }
        },
        Change::Delete(_, _) => {
            assert(aa =~= VSeq::empty());
        },
        Change::Insert(_, _) => {
            assert(bs =~= VSeq::empty());
        },
        _ => {
            assert(sel(x, p, q) + VSeq::empty() + aa =~= sel(x, p, q) + aa);
            assert(sel(x, p, q) + VSeq::empty() + bs =~= sel(x, p, q) + bs);
        },
    }
}

pub proof fn lemma_items_step(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, k: int, x: VSeq<(char, String)>, y: VSeq<(char, String)>)
    requires
        extents_ok(b, a, cs),
        0 <= k < cs.len(),
        items_for(b, a, cs, k, x),
        entry_items(b, a, cs[k], x, y),
    ensures
        items_for(b, a, cs, k + 1, y),
{
    hide(sel);
    hide(kept);
    hide(removed);
    hide(added);
    hide(proper_items);
    assert(piece_ok(b, a, cs[k]));
    lemma_sides_step(b, a, cs, k, x, y);
    lemma_lists_step(b, a, cs, k, x, y);
    lemma_proper_items(b, a, cs[k], x, y);
}

pub proof fn lemma_join(s: VSeq<String>, i: int, j: int, k: int)
    requires
        0 <= i <= j <= k <= s.len(),
    ensures
        s.subrange(i, j) + s.subrange(j, k) == s.subrange(i, k),
{
    assert(s.subrange(i, j) + s.subrange(j, k) =~= s.subrange(i, k));
}

pub proof fn lemma_sides_step(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, k: int, x: VSeq<(char, String)>, y: VSeq<(char, String)>)
    requires
        extents_ok(b, a, cs),
        0 <= k < cs.len(),
        items_for(b, a, cs, k, x),
        entry_items(b, a, cs[k], x, y),
    ensures
        sel(y, ' ', '-') == b.subrange(start_of(cs, false), pos(cs, k + 1, start_of(cs, false), false)),
        sel(y, ' ', '+') == a.subrange(start_of(cs, true), pos(cs, k + 1, start_of(cs, true), true)),
{
    hide(sel);
    hide(kept);
    hide(removed);
    hide(added);
    hide(proper_items);
    hide(entry_items);
    let bs = b.subrange(cs[k].sp_start(false), cs[k].sp_end(false));
    let aa = a.subrange(cs[k].sp_start(true), cs[k].sp_end(true));
    let s0 = start_of(cs, false);
    let s1 = start_of(cs, true);
    assert(piece_ok(b, a, cs[k]));
    let p0 = pos(cs, k, s0, false);
    let p1 = pos(cs, k, s1, true);
    assert(p0 == cs[k].sp_start(false) && p1 == cs[k].sp_start(true));
    assert(pos(cs, k + 1, s0, false) == cs[k].sp_end(false));
    assert(pos(cs, k + 1, s1, true) == cs[k].sp_end(true));
    lemma_join(b, s0, p0, cs[k].sp_end(false));
    lemma_join(a, s1, p1, cs[k].sp_end(true));
    lemma_entry_sel(b, a, cs[k], x, y, ' ', '-');
    lemma_entry_sel(b, a, cs[k], x, y, ' ', '+');
}

pub proof fn lemma_lists_step(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, k: int, x: VSeq<(char, String)>, y: VSeq<(char, String)>)
    requires
        0 <= k < cs.len(),
        piece_ok(b, a, cs[k]),
        entry_items(b, a, cs[k], x, y),
        sel(x, ' ', ' ') == kept(b, cs, k),
        sel(x, '-', '-') == removed(b, cs, k),
        sel(x, '+', '+') == added(a, cs, k),
    ensures
        sel(y, ' ', ' ') == kept(b, cs, k + 1),
        sel(y, '-', '-') == removed(b, cs, k + 1),
        sel(y, '+', '+') == added(a, cs, k + 1),
{
    hide(sel);
    hide(entry_items);
    lemma_entry_sel(b, a, cs[k], x, y, ' ', ' ');
    lemma_entry_sel(b, a, cs[k], x, y, '-', '-');
    lemma_entry_sel(b, a, cs[k], x, y, '+', '+');
    lemma_no_more(kept(b, cs, k));
    lemma_no_more(removed(b, cs, k));
    lemma_no_more(added(a, cs, k));
}

pub proof fn lemma_proper_items(b: VSeq<String>, a: VSeq<String>, c: Change, x: VSeq<(char, String)>, y: VSeq<(char, String)>)
    requires
        piece_ok(b, a, c),
        entry_items(b, a, c, x, y),
        proper_items(b, a, x),
    ensures
        proper_items(b, a, y),
{
    let bs = b.subrange(c.sp_start(false), c.sp_end(false));
    let aa = a.subrange(c.sp_start(true), c.sp_end(true));
    assert forall|i: int| 0 <= i < bs.len() implies b.contains(#[trigger] bs[i]) by {
        assert(bs[i] == b[c.sp_start(false) + i]);
    }
    assert forall|i: int| 0 <= i < aa.len() implies a.contains(#[trigger] aa[i]) by {
        assert(aa[i] == a[c.sp_start(true) + i]);
    }
    assert forall|i: int| 0 <= i < y.len() implies proper_item(b, a, #[trigger] y[i]) by {
        if i < x.len() {
            assert(y[i] == x[i]);
        }
    }
}

pub proof fn lemma_no_more(s: VSeq<String>)
    ensures
        s + VSeq::empty() == s,
{
    assert(s + VSeq::empty() =~= s);
}

pub proof fn lemma_clump_extents(b: VSeq<String>, a: VSeq<String>, n: int, cs: VSeq<Change>)
    requires
        clump_ok(b, a, n, cs),
        n <= 255,
        b.len() <= isize::MAX,
        a.len() <= isize::MAX,
    ensures
        extents_ok(b, a, cs),
        items_for(b, a, cs, 0, VSeq::empty()),
{
    reveal(stretch_ok);
    lemma_clump_ends(b, a, n, cs);
    assert(b.subrange(start_of(cs, false), start_of(cs, false)) =~= VSeq::empty());
    assert(a.subrange(start_of(cs, true), start_of(cs, true)) =~= VSeq::empty());
}

impl VxShow for StartsAndLengths {
    open spec fn shown(&self) -> VSeq<char> {
        shown_header(*self)
    }
}

/// a clump is rendered properly
pub open spec fn rendered(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, t: UnifiedClumpText) -> bool {
    exists|items: VSeq<(char, String)>, h: StartsAndLengths| #[trigger] rendered_as(b, a, cs, t, items, h)
}

pub open spec fn rendered_as(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, t: UnifiedClumpText, items: VSeq<(char, String)>, h: StartsAndLengths) -> bool {
    &&& 0 <= start_of(cs, false) <= end_of(cs, false) <= b.len()
    &&& 0 <= start_of(cs, true) <= end_of(cs, true) <= a.len()
    &&& flat(views(t.lines@)) == shown_lines(items)
    &&& sel(items, ' ', '-') == b.subrange(start_of(cs, false), end_of(cs, false))
    &&& sel(items, ' ', '+') == a.subrange(start_of(cs, true), end_of(cs, true))
    &&& sel(items, ' ', ' ') == kept(b, cs, cs.len() as int)
    &&& sel(items, '-', '-') == removed(b, cs, cs.len() as int)
    &&& sel(items, '+', '+') == added(a, cs, cs.len() as int)
    &&& proper_items(b, a, items)
    &&& heads(h, t.header@)
    &&& h.before.length == end_of(cs, false) - start_of(cs, false)
    &&& h.after.length == end_of(cs, true) - start_of(cs, true)
    &&& index_of(h.before) == start_of(cs, false)
    &&& index_of(h.after) == start_of(cs, true)
    &&& h.before.length > 0 ==> h.before.start > 0
    &&& h.after.length > 0 ==> h.after.start > 0
}
@fn path_and_time_stamp_from_captures
@ret r
    requires
        captures.groups().len() == 5,
        captures.groups()[2].is_some() || captures.groups()[3].is_some(),
    ensures
        says(r, if captures.groups()[2].is_some() { captures.groups()[2].unwrap() } else { captures.groups()[3].unwrap() }, captures.groups()[4]),
@closure 1 Match<'_> -> (q: String)
                ensures q@ == vx_p.text(),
@fn before_path_and_time_stamp
@ret r
    ensures
        says_so(r, named(line@, '-')),
@fn after_path_and_time_stamp
@ret r
    ensures
        says_so(r, named(line@, '+')),
@fn start_and_length_from_captures
@ret r
    requires
        captures.groups().len() == 7,
        line_num <= 6,
        length <= 6,
    ensures
        match r {
            Ok(x) => span_of(captures.groups(), line_num as int, length as int) == Some(x),
            Err(_) => span_of(captures.groups(), line_num as int, length as int).is_none(),
        },
@fn starts_and_lengths
@ret r
    ensures
        match r {
            Ok(Some(x)) => announced(line@) == Some(x),
            Ok(None) => header_groups(line@).is_none(),
            Err(_) => announced(line@).is_none(),
        },
@fn line_number
@ret r
    requires
        index + length <= usize::MAX,
    ensures
        r == (if length == 0 { index as int } else { index + 1 }),
@fn line_index
@ret r
    ensures
        r == index_of(*start_and_length),
@fn remove_newline
    ensures
        views((*final(before_lines))@) == (if line_type@ != "+"@ { chopped(views((*old(before_lines))@)) } else { views((*old(before_lines))@) }),
        views((*final(after_lines))@) == (if line_type@ != "-"@ { chopped(views((*old(after_lines))@)) } else { views((*old(after_lines))@) }),
@ghost start
    proof { lemma_markers(); }
@item impl UnifiedDiffClump
/// the clump holds what its header announces
pub open spec fn proper(&self) -> bool {
    &&& self.before_lines@.len() == self.starts_and_lengths.before.length
    &&& self.after_lines@.len() == self.starts_and_lengths.after.length
}

pub open spec fn says(&self) -> Clump<String> {
    Clump {
        s0: index_of(self.starts_and_lengths.before),
        v0: self.before_lines@,
        s1: index_of(self.starts_and_lengths.after),
        v1: self.after_lines@,
        c0: self.context_lengths.0 as int,
        c1: self.context_lengths.1 as int,
    }
}
@fn UnifiedDiffClump::get_from_at
@ret r
    ensures
        match r {
            Ok(Some(c)) => {
                &&& start_index < lines.0@.len()
                &&& announced(lines.0@[start_index as int]@) == Some(c.starts_and_lengths)
                &&& parsed(following(lines.0@, start_index as int), c)
            },
            Ok(None) => start_index >= lines.0@.len() || header_groups(lines.0@[start_index as int]@).is_none(),
            Err(_) => {
                &&& start_index < lines.0@.len()
                &&& match announced(lines.0@[start_index as int]@) {
                    Some(s) => refused(following(lines.0@, start_index as int), s),
                    None => true,
                }
            },
        },
@ghost start
    proof {
        ax_len_strings(lines.0);
        if start_index < lines.0@.len() {
            assert(lines.0@.skip(start_index as int).drop_first() =~= following(lines.0@, start_index as int));
        }
    }
@ghost after call starts_and_lengths 1
    let ghost vx_l = following(lines.0@, start_index as int);
    proof {
        lemma_markers();
    }
@loop 1
    invariant
        vx_l == following(lines.0@, start_index as int),
        start_index < lines.0@.len(),
        lines.0@.len() <= isize::MAX,
        announced(lines.0@[start_index as int]@) == Some(starts_and_lengths),
        good(iter),
        0 <= index <= vx_l.len(),
        rem(iter) == vx_l.skip(index as int).as_ref(),
        views(before_lines@) == walk(vx_l, index as int).b,
        views(after_lines@) == walk(vx_l, index as int).a,
        walk(vx_l, index as int).ok,
        last_line_type@ == VSeq::empty().push(walk(vx_l, index as int).last),
        start_context_length == at_most_255(walk(vx_l, index as int).front),
        end_context_length == at_most_255(walk(vx_l, index as int).tail),
        at_the_front == !walk(vx_l, index as int).changed,
        forall|k: int| 0 <= k < index ==> !#[trigger] full(vx_l, k, starts_and_lengths),
    decreases fuel(iter),
@ghost loop 1 start
    proof {
        lemma_markers();
        if index == vx_l.len() {
            lemma_no_sum(vx_l, index as int, starts_and_lengths);
        } else {
            assert(vx_l.skip(index as int).drop_first() =~= vx_l.skip(index + 1));
            if !walk(vx_l, index + 1).ok {
                lemma_no_sum(vx_l, index + 1, starts_and_lengths);
            }
        }
    }
@ghost after call check_end_of_input 1
    proof {
        assert(line@ == vx_l[index as int]@);
        assert(walk(vx_l, index + 1) == step(walk(vx_l, index as int), line@));
    }
@ghost after loop 1
    proof {
        lemma_markers();
        if before_lines@.len() > starts_and_lengths.before.length || after_lines@.len() > starts_and_lengths.after.length {
            lemma_no_sum(vx_l, index as int, starts_and_lengths);
        }
        if index < vx_l.len() {
            assert(walk(vx_l, index + 1) == step(walk(vx_l, index as int), vx_l[index as int]@));
        }
    }
@ghost end
    proof {
        let vx_c = vx_r->Ok_0.unwrap();
        let vx_n = vx_c.lines_consumed - 1;
        assert(adds_up(vx_l, vx_n, vx_c.starts_and_lengths));
        assert(!marker_next(vx_l, vx_n));
        assert(views(vx_c.before_lines@) == walk(vx_l, vx_n).b);
        assert(views(vx_c.after_lines@) == walk(vx_l, vx_n).a);
        assert(parsed(vx_l, vx_c));
    }
@item impl ChangeBasics for UnifiedDiffClump
open spec fn sp_ok(&self) -> bool {
    self.proper() && text_ok(self.says())
}
open spec fn sp_start(&self, reverse: bool) -> int {
    self.says().start(reverse)
}
open spec fn sp_end(&self, reverse: bool) -> int {
    self.says().end(reverse)
}
@fn ChangeBasics for UnifiedDiffClump::before_start
@fn ChangeBasics for UnifiedDiffClump::before_end
@fn ChangeBasics for UnifiedDiffClump::before_length
@item impl TextClumpBasics for UnifiedDiffClump
/// a clump whose lines are not as its header says counts as malformed
open spec fn lines(&self) -> Clump<String> {
    if self.proper() { self.says() } else { Clump { s0: -1, ..self.says() } }
}
proof fn lemma_lines(&self) {
}
@fn TextClumpBasics for UnifiedDiffClump::context_lengths
@fn TextClumpBasics for UnifiedDiffClump::before_lines
@inherent Iterator for UnifiedClumpIter
@fn push_line
    ensures
        flat(views((*final(lines))@)) == flat(views((*old(lines))@)) + shown_line(marker, line@),
@ghost end
    proof {
    }
@item impl Iterator for UnifiedClumpIter
/// the clumps are those of the two texts
#[verifier::prophetic]
pub open spec fn state_ok(&self) -> bool {
    &&& self.iter.state_ok()
    &&& *self.before == *self.iter.before
    &&& *self.after == *self.iter.after
}
@fn Iterator for UnifiedClumpIter::next
@ret r
    requires
        old(self).state_ok(),
    ensures
        final(self).state_ok(),
        final(self).before == old(self).before,
        final(self).after == old(self).after,
        exists|cs: VSeq<Change>|
            {
                &&& #[trigger] cut_done(
                    old(self).before.0@,
                    old(self).after.0@,
                    old(self).iter.context as int,
                    old(self).iter.todo(),
                    old(self).iter.stash,
                    cs,
                    final(self).iter.todo(),
                    final(self).iter.stash,
                )
                &&& r.is_none() ==> cs.len() == 0
                &&& r.is_some() ==> cs.len() > 0 && rendered(old(self).before.0@, old(self).after.0@, cs, r.unwrap())
            },
@ghost after call next 1
    let ghost vx_cs = change_clump.changes@;
    let ghost vx_b = self.before.0@;
    let ghost vx_a = self.after.0@;
    let ghost mut vx_items: VSeq<(char, String)> = VSeq::empty();
    proof {
        reveal(cut_done);
        reveal(stretch_ok);
        ax_len_strings(self.before.0);
        ax_len_strings(self.after.0);
        lemma_clump_ends(vx_b, vx_a, self.iter.context as int, vx_cs);
        lemma_clump_extents(vx_b, vx_a, self.iter.context as int, vx_cs);
    }
@loop 1 it
    invariant
        it.seq().len() == vx_cs.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == vx_cs[k],
        vx_b == self.before.0@,
        vx_a == self.after.0@,
        extents_ok(vx_b, vx_a, vx_cs),
        flat(views(lines@)) == shown_lines(vx_items),
        items_for(vx_b, vx_a, vx_cs, it.index() as int, vx_items),
@ghost loop 1 start
    let ghost vx_k = it.index() as int;
    let ghost vx_x = vx_items;
    let ghost vx_bs = vx_b.subrange(vx_cs[vx_k].sp_start(false), vx_cs[vx_k].sp_end(false));
    let ghost vx_as = vx_a.subrange(vx_cs[vx_k].sp_start(true), vx_cs[vx_k].sp_end(true));
    proof { assert(piece_ok(vx_b, vx_a, vx_cs[vx_k])); }
@ghost loop 1 end
    proof { lemma_items_step(vx_b, vx_a, vx_cs, vx_k, vx_x, vx_items); }
@loop 2 it2
    invariant
        it2.seq().len() == vx_bs.len(),
        forall|k: int| 0 <= k < it2.seq().len() ==> *(#[trigger] it2.seq()[k]) == vx_bs[k],
        flat(views(lines@)) == shown_lines(vx_x + tagged(' ', vx_bs.take(it2.index() as int))),
@ghost loop 2 start
    proof { lemma_tagged_step(vx_x, ' ', vx_bs, it2.index() as int); }
@ghost before loop 2
    proof { lemma_tagged_ends(vx_x, ' ', vx_bs); }
@ghost after loop 2
    proof {
        lemma_tagged_ends(vx_x, ' ', vx_bs);
        vx_items = vx_x + tagged(' ', vx_bs);
    }
@loop 3 it3
    invariant
        it3.seq().len() == vx_bs.len(),
        forall|k: int| 0 <= k < it3.seq().len() ==> *(#[trigger] it3.seq()[k]) == vx_bs[k],
        flat(views(lines@)) == shown_lines(vx_x + tagged('-', vx_bs.take(it3.index() as int))),
@ghost loop 3 start
    proof { lemma_tagged_step(vx_x, '-', vx_bs, it3.index() as int); }
@ghost before loop 3
    proof { lemma_tagged_ends(vx_x, '-', vx_bs); }
@ghost after loop 3
    proof {
        lemma_tagged_ends(vx_x, '-', vx_bs);
        vx_items = vx_x + tagged('-', vx_bs);
    }
@loop 4 it4
    invariant
        it4.seq().len() == vx_as.len(),
        forall|k: int| 0 <= k < it4.seq().len() ==> *(#[trigger] it4.seq()[k]) == vx_as[k],
        flat(views(lines@)) == shown_lines(vx_x + tagged('+', vx_as.take(it4.index() as int))),
@ghost loop 4 start
    proof { lemma_tagged_step(vx_x, '+', vx_as, it4.index() as int); }
@ghost before loop 4
    proof { lemma_tagged_ends(vx_x, '+', vx_as); }
@ghost after loop 4
    proof {
        lemma_tagged_ends(vx_x, '+', vx_as);
        vx_items = vx_x + tagged('+', vx_as);
    }
@loop 5 it5
    invariant
        it5.seq().len() == vx_bs.len(),
        forall|k: int| 0 <= k < it5.seq().len() ==> *(#[trigger] it5.seq()[k]) == vx_bs[k],
        flat(views(lines@)) == shown_lines(vx_x + tagged('-', vx_bs.take(it5.index() as int))),
@ghost loop 5 start
    proof { lemma_tagged_step(vx_x, '-', vx_bs, it5.index() as int); }
@ghost before loop 5
    proof { lemma_tagged_ends(vx_x, '-', vx_bs); }
@ghost after loop 5
    proof {
        lemma_tagged_ends(vx_x, '-', vx_bs);
        vx_items = vx_x + tagged('-', vx_bs);
    }
@loop 6 it6
    invariant
        it6.seq().len() == vx_as.len(),
        forall|k: int| 0 <= k < it6.seq().len() ==> *(#[trigger] it6.seq()[k]) == vx_as[k],
        flat(views(lines@)) == shown_lines((vx_x + tagged('-', vx_bs)) + tagged('+', vx_as.take(it6.index() as int))),
@ghost loop 6 start
    proof { lemma_tagged_step((vx_x + tagged('-', vx_bs)), '+', vx_as, it6.index() as int); }
@ghost before loop 6
    proof { lemma_tagged_ends((vx_x + tagged('-', vx_bs)), '+', vx_as); }
@ghost after loop 6
    proof {
        lemma_tagged_ends((vx_x + tagged('-', vx_bs)), '+', vx_as);
        vx_items = (vx_x + tagged('-', vx_bs)) + tagged('+', vx_as);
    }
@loop 7 it7
    invariant
        it7.seq().len() == vx_as.len(),
        forall|k: int| 0 <= k < it7.seq().len() ==> *(#[trigger] it7.seq()[k]) == vx_as[k],
        flat(views(lines@)) == shown_lines(vx_x + tagged('+', vx_as.take(it7.index() as int))),
@ghost loop 7 start
    proof { lemma_tagged_step(vx_x, '+', vx_as, it7.index() as int); }
@ghost before loop 7
    proof { lemma_tagged_ends(vx_x, '+', vx_as); }
@ghost after loop 7
    proof {
        lemma_tagged_ends(vx_x, '+', vx_as);
        vx_items = vx_x + tagged('+', vx_as);
    }
@loop 8 it8
    invariant
        it8.seq().len() == vx_bs.len(),
        forall|k: int| 0 <= k < it8.seq().len() ==> *(#[trigger] it8.seq()[k]) == vx_bs[k],
        flat(views(lines@)) == shown_lines((vx_x + tagged('+', vx_as)) + tagged('-', vx_bs.take(it8.index() as int))),
@ghost loop 8 start
    proof { lemma_tagged_step((vx_x + tagged('+', vx_as)), '-', vx_bs, it8.index() as int); }
@ghost before loop 8
    proof { lemma_tagged_ends((vx_x + tagged('+', vx_as)), '-', vx_bs); }
@ghost after loop 8
    proof {
        lemma_tagged_ends((vx_x + tagged('+', vx_as)), '-', vx_bs);
        vx_items = (vx_x + tagged('+', vx_as)) + tagged('-', vx_bs);
    }
@ghost end
    proof {
        ax_shown(starts_and_lengths);
        assert(rendered_as(vx_b, vx_a, vx_cs, vx_r.unwrap(), vx_items, starts_and_lengths));
    }
@fn Display for StartsAndLengths::fmt
@ret r
    ensures
        r.is_ok() ==> exists|t: VSeq<char>| #[trigger] heads(*self, t) && fmt_text(*final(f)) == fmt_text(*old(f)) + t,
@ghost end
    proof {
        if vx_r.is_ok() {
            let old_text = fmt_text(*old(f));
            let text = fmt_text(*f);
            let t = text.skip(old_text.len() as int);
            assert(text =~= old_text + t);
            if t =~= form(*self, false, false) {
                lemma_form(*self, false, false);
            } else if self.after.length == 1 && t =~= form(*self, false, true) {
                lemma_form(*self, false, true);
            } else if self.before.length == 1 && t =~= form(*self, true, false) {
                lemma_form(*self, true, false);
            } else {
                assert(self.before.length == 1 && self.after.length == 1);
                assert(t =~= form(*self, true, true));
                lemma_form(*self, true, true);
            }
            assert(heads(*self, t));
        }
    }
@ghost start
    proof { reveal_strlit("@@ -"); reveal_strlit(" +"); reveal_strlit(" @@"); reveal_strlit(","); }
