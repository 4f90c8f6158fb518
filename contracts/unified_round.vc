@module unified_round
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::changes::*;
use crate::sequence::Seq;
use crate::patch::*;
use crate::apply_text::*;
use crate::cub_text_diff::*;
use crate::unified::*;
use crate::header::*;
broadcast use {crate::prelude::lemma_flat_push, crate::prelude::group_lines};
@top
/// ---------- rendered clumps are parsed again ----------
/// the lines of a text a rendered line turns into
pub open spec fn real_line(m: char, l: VSeq<char>) -> VSeq<VSeq<char>> {
    if has_newline(l) {
        seq![VSeq::empty().push(m) + l]
    } else {
        seq![(VSeq::empty().push(m) + l).push('\n'), seq!['\\', '\n']]
    }
}

pub open spec fn real_lines(items: VSeq<(char, String)>) -> VSeq<VSeq<char>>
    decreases items.len(),
{
    if items.len() == 0 {
        VSeq::empty()
    } else {
        real_lines(items.drop_last()) + real_line(items.last().0, items.last().1@)
    }
}

pub proof fn lemma_flat_add(s: VSeq<VSeq<char>>, t: VSeq<VSeq<char>>)
    ensures
        flat(s + t) == flat(s) + flat(t),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(flat(s) + flat(t) =~= flat(s));
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_flat_add(s, t.drop_last());
        assert(flat(s) + flat(t.drop_last()) + t.last() =~= flat(s) + flat(t));
    }
}

/// the rendered text is those lines
pub proof fn lemma_real_text(items: VSeq<(char, String)>)
    ensures
        flat(real_lines(items)) == shown_lines(items),
    decreases items.len(),
{
    if items.len() > 0 {
        let m = items.last().0;
        let l = items.last().1@;
        lemma_real_text(items.drop_last());
        lemma_flat_add(real_lines(items.drop_last()), real_line(m, l));
        reveal_strlit("\n\\\n");
        let r = real_line(m, l);
        if has_newline(l) {
            assert(r.drop_last() =~= VSeq::empty());
            assert(flat(r) =~= shown_line(m, l));
        } else {
            assert(r.drop_last() =~= seq![r[0]]);
            assert(r.drop_last().drop_last() =~= VSeq::empty());
            assert(flat(r.drop_last()) =~= r[0]);
            assert("\n\\\n"@ =~= seq!['\n', '\\', '\n']);
            assert(flat(r) =~= shown_line(m, l));
        }
    }
}

/// a line: its newline, if any, at its end
pub open spec fn one_line(l: VSeq<char>) -> bool {
    &&& l.len() > 0
    &&& forall|j: int| 0 <= j < l.len() - 1 ==> l[j] != '\n'
}

/// lines; only the last may be without newline
pub open spec fn char_lines(s: VSeq<VSeq<char>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> one_line(#[trigger] s[i]) && (i < s.len() - 1 ==> has_newline(s[i]))
}

/// lines, all with newline
pub open spec fn whole_lines(s: VSeq<VSeq<char>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> one_line(#[trigger] s[i]) && has_newline(s[i])
}

pub proof fn lemma_flat_first(s: VSeq<VSeq<char>>)
    requires
        s.len() > 0,
    ensures
        flat(s) == s[0] + flat(s.skip(1)),
{
    let f = seq![s[0]];
    assert(s =~= f + s.skip(1));
    lemma_flat_add(f, s.skip(1));
    assert(f.drop_last() =~= VSeq::empty());
    assert(flat(f) =~= s[0]);
}

/// a text which starts with some whole lines has them as its first lines
pub proof fn lemma_cut(x: VSeq<VSeq<char>>, y: VSeq<VSeq<char>>, rest: VSeq<char>)
    requires
        char_lines(x),
        whole_lines(y),
        flat(x) == flat(y) + rest,
    ensures
        y.len() <= x.len(),
        x.take(y.len() as int) == y,
        flat(x.skip(y.len() as int)) == rest,
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x.take(0) =~= y);
        assert(x.skip(0) =~= x);
        assert(flat(y) + rest =~= rest);
    } else {
        lemma_flat_first(y);
        assert(y[0].len() > 0);
        assert(x.len() > 0) by {
            if x.len() == 0 {
                assert(flat(x).len() == 0);
            }
        }
        lemma_flat_first(x);
        let t = flat(x);
        let u = x[0];
        let v = y[0];
        assert(t =~= v + (flat(y.skip(1)) + rest));
        assert(forall|j: int| 0 <= j < u.len() ==> t[j] == u[j]);
        assert(forall|j: int| 0 <= j < v.len() ==> t[j] == v[j]);
        if u.len() > v.len() {
            assert(t[v.len() - 1] == '\n');
            assert(u[v.len() - 1] == '\n');
        }
        if u.len() < v.len() {
            assert(t[u.len() - 1] == v[u.len() - 1]);
            assert(!has_newline(u));
            assert(x.skip(1) =~= VSeq::empty());
            assert(flat(x.skip(1)).len() == 0);
        }
        assert(u =~= v);
        assert(flat(x.skip(1)) =~= t.skip(u.len() as int));
        assert(flat(y.skip(1)) + rest =~= t.skip(v.len() as int));
        assert forall|i: int| 0 <= i < x.skip(1).len() implies one_line(#[trigger] x.skip(1)[i]) && (i < x.skip(1).len() - 1 ==> has_newline(x.skip(1)[i])) by {
            assert(x.skip(1)[i] == x[i + 1]);
        }
        assert forall|i: int| 0 <= i < y.skip(1).len() implies one_line(#[trigger] y.skip(1)[i]) && has_newline(y.skip(1)[i]) by {
            assert(y.skip(1)[i] == y[i + 1]);
        }
        lemma_cut(x.skip(1), y.skip(1), rest);
        let n = y.len() as int;
        assert(x.skip(1).skip(n - 1) =~= x.skip(n));
        assert(x.take(n) =~= y) by {
            assert forall|i: int| 0 <= i < n implies x[i] == y[i] by {
                if i > 0 {
                    assert(x.skip(1).take(n - 1)[i - 1] == y.skip(1)[i - 1]);
                }
            }
        }
    }
}

pub proof fn lemma_real_whole(b: VSeq<String>, a: VSeq<String>, items: VSeq<(char, String)>)
    requires
        proper_items(b, a, items),
        char_lines(views(b)),
        char_lines(views(a)),
    ensures
        whole_lines(real_lines(items)),
    decreases items.len(),
{
    if items.len() > 0 {
        let d = items.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies proper_item(b, a, #[trigger] d[i]) by {
            assert(d[i] == items[i]);
        }
        lemma_real_whole(b, a, d);
        assert(proper_item(b, a, items[items.len() - 1]));
        let l = items.last().1;
        if b.contains(l) {
            let i = choose|i: int| 0 <= i < b.len() && b[i] == l;
            assert(views(b)[i] == l@);
        } else {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == l;
            assert(views(a)[i] == l@);
        }
        assert(one_line(l@));
        assert(whole_lines(real_line(items.last().0, l@)));
    }
}

/// the rendered lines hold the two sides
pub proof fn lemma_walk_real(b: VSeq<String>, a: VSeq<String>, items: VSeq<(char, String)>, l: VSeq<String>)
    requires
        proper_items(b, a, items),
        real_lines(items).len() <= l.len(),
        forall|k: int| 0 <= k < real_lines(items).len() ==> (#[trigger] l[k])@ == real_lines(items)[k],
    ensures
        ({
            let w = walk(l, real_lines(items).len() as int);
            &&& w.ok
            &&& w.b == views(sel(items, ' ', '-'))
            &&& w.a == views(sel(items, ' ', '+'))
        }),
    decreases items.len(),
{
    if items.len() == 0 {
        assert(views(sel(items, ' ', '-')) =~= VSeq::empty());
        assert(views(sel(items, ' ', '+')) =~= VSeq::empty());
    } else {
        let d = items.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies proper_item(b, a, #[trigger] d[i]) by {
            assert(d[i] == items[i]);
        }
        assert(proper_item(b, a, items[items.len() - 1]));
        let n = real_lines(d).len() as int;
        let m = items.last().0;
        let x = items.last().1@;
        let r = real_line(m, x);
        assert forall|k: int| 0 <= k < n implies (#[trigger] l[k])@ == real_lines(d)[k] by {
            assert(real_lines(items)[k] == real_lines(d)[k]);
        }
        lemma_walk_real(b, a, d, l);
        assert(real_lines(items)[n] == r[0]);
        assert(l[n]@ == r[0]);
        let w = walk(l, n);
        let w1 = walk(l, n + 1);
        assert(w1 == step(w, l[n]@));
        if has_newline(x) {
            assert(l[n]@.skip(1) =~= x);
        } else {
            assert(l[n]@.skip(1) =~= x.push('\n'));
            assert(real_lines(items)[n + 1] == r[1]);
            assert(l[n + 1]@ == r[1]);
            assert(walk(l, n + 2) == step(w1, l[n + 1]@));
            assert(x.push('\n').drop_last() =~= x);
            assert(w.b.push(x.push('\n')).drop_last() =~= w.b);
            assert(w.a.push(x.push('\n')).drop_last() =~= w.a);
        }
    }
}

/// no two numbers of lines add up and are not followed by a marker for them
pub proof fn lemma_sum_unique(l: VSeq<String>, m: int, n: int, s: StartsAndLengths)
    requires
        adds_up(l, m, s),
        adds_up(l, n, s),
        m <= n,
        !marker_next(l, m),
    ensures
        m == n,
{
    if m < n {
        lemma_walk_grows(l, m + 1, n);
        lemma_walk_grows(l, m, m + 1);
        assert(walk(l, m + 1) == step(walk(l, m), l[m]@));
    }
}

/// a text which starts with a header and some lines, whole lines all
pub proof fn lemma_first_lines(text: VSeq<String>, hd: VSeq<char>, y: VSeq<VSeq<char>>, rest: VSeq<char>)
    requires
        char_lines(views(text)),
        one_line(hd),
        has_newline(hd),
        whole_lines(y),
        flat(views(text)) == hd + flat(y) + rest,
    ensures
        text.len() > y.len(),
        text[0]@ == hd,
        forall|k: int| 0 <= k < y.len() ==> (#[trigger] following(text, 0)[k])@ == y[k],
        text.len() > y.len() + 1 ==> rest.len() > 0 && following(text, 0)[y.len() as int]@.len() > 0 && rest[0] == following(text, 0)[y.len() as int]@[0],
{
    let z = seq![hd] + y;
    let n = y.len() as int;
    let l = following(text, 0);
    lemma_flat_first(z);
    assert(z.skip(1) =~= y);
    assert forall|i: int| 0 <= i < z.len() implies one_line(#[trigger] z[i]) && has_newline(z[i]) by {
        if i > 0 { assert(z[i] == y[i - 1]); }
    }
    lemma_cut(views(text), z, rest);
    assert(views(text).take(n + 1)[0] == z[0]);
    assert(views(text)[0] == text[0]@);
    assert forall|k: int| 0 <= k < n implies (#[trigger] l[k])@ == y[k] by {
        assert(views(text).take(n + 1)[k + 1] == z[k + 1]);
        assert(views(text)[k + 1] == text[k + 1]@);
    }
    if n < l.len() {
        let v = views(text).skip(n + 1);
        lemma_flat_first(v);
        assert(v[0] == views(text)[n + 1]);
        assert(v[0] == l[n]@);
        assert(one_line(views(text)[n + 1]));
        assert(rest[0] == v[0][0]);
    }
}

/// C20: a text which starts with a rendered clump, parsed
pub proof fn lemma_rendered_parses(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, t: UnifiedClumpText, text: VSeq<String>, rest: VSeq<char>)
    requires
        rendered(b, a, cs, t),
        char_lines(views(b)),
        char_lines(views(a)),
        char_lines(views(text)),
        flat(views(text)) == t.header@.push('\n') + flat(views(t.lines@)) + rest,
        !marked(rest, '\\'),
    ensures
        exists|h: StartsAndLengths, n: int| #[trigger] parses_to(b, a, cs, text, h, n),
{
    hide(walk);
    hide(sel);
    hide(flat);
    hide(real_lines);
    hide(shown_lines);
    hide(announced);
    hide(kept);
    hide(removed);
    hide(added);
    let (items, h) = choose|items: VSeq<(char, String)>, h: StartsAndLengths| #[trigger] rendered_as(b, a, cs, t, items, h);
    let y = real_lines(items);
    let l = following(text, 0);
    let n = y.len() as int;
    lemma_real_text(items);
    lemma_real_whole(b, a, items);
    lemma_header_line(t.header@);
    lemma_first_lines(text, t.header@.push('\n'), y, rest);
    lemma_walk_real(b, a, items, l);
    assert(announced(t.header@.push('\n')) == Some(h));
    assert(adds_up(l, n, h));
    assert(!marker_next(l, n));
    assert(parses_to(b, a, cs, text, h, n));
}

pub open spec fn parses_to(b: VSeq<String>, a: VSeq<String>, cs: VSeq<Change>, text: VSeq<String>, h: StartsAndLengths, n: int) -> bool {
    let l = following(text, 0);
    &&& text.len() > 0
    &&& announced(text[0]@) == Some(h)
    &&& adds_up(l, n, h)
    &&& !marker_next(l, n)
    &&& walk(l, n).b == views(b.subrange(start_of(cs, false), end_of(cs, false)))
    &&& walk(l, n).a == views(a.subrange(start_of(cs, true), end_of(cs, true)))
    &&& index_of(h.before) == start_of(cs, false)
    &&& index_of(h.after) == start_of(cs, true)
}

/// a header is one line
pub proof fn lemma_header_line(t: VSeq<char>)
    requires
        no_newline(t),
    ensures
        one_line(t.push('\n')),
        has_newline(t.push('\n')),
{
}

/// ---------- lines of bytes are lines of characters ----------
/// only a newline has the byte of a newline in its encoding
pub proof fn lemma_scalar(c: char)
    ensures
        c == '\n' ==> vstd::utf8::encode_scalar(c as u32) == seq![10u8],
        c != '\n' ==> forall|i: int| 0 <= i < vstd::utf8::encode_scalar(c as u32).len() ==> #[trigger] vstd::utf8::encode_scalar(c as u32)[i] != 10u8,
        vstd::utf8::encode_scalar(c as u32).len() > 0,
{
    broadcast use vstd::utf8::group_utf8_lib;
    let n = c as u32;
    if c == '\n' {
        assert(vstd::utf8::leading_byte_width_1(10u32) == 10u8) by (compute);
        assert(vstd::utf8::has_width_1_encoding(10u32));
        assert(vstd::utf8::encode_scalar(10u32) =~= seq![10u8]);
    } else {
        assert(n != 10);
        assert(n < 128 && n != 10 ==> vstd::utf8::leading_byte_width_1(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::leading_byte_width_2(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::leading_byte_width_3(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::leading_byte_width_4(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::last_continuation_byte(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::second_last_continuation_byte(n) != 10u8) by (bit_vector);
        assert(vstd::utf8::third_last_continuation_byte(n) != 10u8) by (bit_vector);
    }
}

pub proof fn lemma_encode_split(c: VSeq<char>, j: int)
    requires
        0 <= j < c.len(),
    ensures
        vstd::utf8::encode_utf8(c) == vstd::utf8::encode_utf8(c.take(j)) + vstd::utf8::encode_scalar(c[j] as u32) + vstd::utf8::encode_utf8(c.skip(j + 1)),
{
    let o = seq![c[j]];
    assert(c =~= c.take(j) + o + c.skip(j + 1));
    vstd::utf8::encode_utf8_concat(c.take(j) + o, c.skip(j + 1));
    vstd::utf8::encode_utf8_concat(c.take(j), o);
    assert(o.drop_first() =~= VSeq::empty());
    assert(vstd::utf8::encode_utf8(o.drop_first()) =~= VSeq::empty());
    assert(vstd::utf8::encode_utf8(o) =~= vstd::utf8::encode_scalar(c[j] as u32));
}

pub proof fn lemma_encode_some(c: VSeq<char>)
    ensures
        (vstd::utf8::encode_utf8(c).len() > 0) == (c.len() > 0),
{
    if c.len() > 0 {
        lemma_encode_split(c, 0);
        lemma_scalar(c[0]);
    }
}

pub proof fn lemma_one_line(c: VSeq<char>, last: bool)
    requires
        crate::sequence::line_ok(vstd::utf8::encode_utf8(c), last),
    ensures
        one_line(c),
        !last ==> has_newline(c),
{
    let b = vstd::utf8::encode_utf8(c);
    lemma_encode_some(c);
    assert forall|j: int| 0 <= j < c.len() - 1 implies c[j] != '\n' by {
        lemma_encode_split(c, j);
        lemma_scalar(c[j]);
        lemma_encode_some(c.skip(j + 1));
        if c[j] == '\n' {
            assert(b[vstd::utf8::encode_utf8(c.take(j)).len() as int] == 10u8);
        }
    }
    if !last {
        let k = c.len() - 1;
        lemma_encode_split(c, k);
        lemma_scalar(c[k]);
        lemma_encode_some(c.skip(k + 1));
        let e = vstd::utf8::encode_scalar(c[k] as u32);
        assert(b[b.len() - 1] == e[e.len() - 1]);
    }
}

pub proof fn lemma_char_lines(s: VSeq<String>)
    requires
        crate::sequence::lines_ok(s),
    ensures
        char_lines(views(s)),
{
    assert forall|i: int| 0 <= i < views(s).len() implies one_line(#[trigger] views(s)[i]) && (i < views(s).len() - 1 ==> has_newline(views(s)[i])) by {
        assert(sbytes(s[i]) == vstd::utf8::encode_utf8(views(s)[i]));
        lemma_one_line(views(s)[i], i == s.len() - 1);
    }
}

pub proof fn lemma_flat_cat(s: VSeq<String>)
    ensures
        cat(s) == vstd::utf8::encode_utf8(flat(views(s))),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_flat_cat(s.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        vstd::utf8::encode_utf8_concat(flat(views(s.drop_last())), s.last()@);
    }
}

/// the text of a rendered clump in a file
pub open spec fn clump_text(t: UnifiedClumpText) -> VSeq<char> {
    t.header@.push('\n') + flat(views(t.lines@))
}

/// C20: the lines of a text which starts with a rendered clump, parsed, give the two sides back
pub fn vx_parse_rendered(text: &Seq<String>, t: &UnifiedClumpText, Ghost(b): Ghost<VSeq<String>>, Ghost(a): Ghost<VSeq<String>>, Ghost(cs): Ghost<VSeq<Change>>, Ghost(rest): Ghost<VSeq<char>>) -> (r: UnifiedDiffClump)
    requires
        rendered(b, a, cs, *t),
        crate::sequence::lines_ok(b),
        crate::sequence::lines_ok(a),
        crate::sequence::lines_ok(text.0@),
        cat(text.0@) == vstd::utf8::encode_utf8(clump_text(*t) + rest),
        !marked(rest, '\\'),
    ensures
        views(r.before_lines@) == views(b.subrange(start_of(cs, false), end_of(cs, false))),
        views(r.after_lines@) == views(a.subrange(start_of(cs, true), end_of(cs, true))),
        r.says().s0 == start_of(cs, false),
        r.says().s1 == start_of(cs, true),
{
    proof {
        let w = text.0@;
        lemma_char_lines(b);
        lemma_char_lines(a);
        lemma_char_lines(w);
        lemma_flat_cat(w);
        vstd::utf8::encode_utf8_decode_utf8(flat(views(w)));
        vstd::utf8::encode_utf8_decode_utf8(clump_text(*t) + rest);
        lemma_rendered_parses(b, a, cs, *t, w, rest);
    }
    let ghost (h, n) = choose|h: StartsAndLengths, n: int| #[trigger] parses_to(b, a, cs, text.0@, h, n);
    let r = UnifiedDiffClump::get_from_at(text, 0);
    match r {
        Ok(Some(c)) => {
            proof {
                let l = following(text.0@, 0);
                let m = c.lines_consumed - 1;
                if m <= n {
                    lemma_sum_unique(l, m, n, h);
                } else {
                    lemma_sum_unique(l, n, m, h);
                }
            }
            c
        },
        Ok(None) => {
            proof {
                assert(announced(text.0@[0usize as int]@) == Some(h));
                assert(false);
            }
            vx_never()
        },
        Err(_) => {
            proof {
                assert(announced(text.0@[0usize as int]@) == Some(h));
                assert(adds_up(following(text.0@, 0), n, h));
                assert(false);
            }
            vx_never()
        },
    }
}

#[verifier::external_body]
fn vx_never() -> (r: UnifiedDiffClump)
    requires
        false,
{
    unimplemented!()
}

