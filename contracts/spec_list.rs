// =====================================================================================================
// P26: what header list texts mean. Specification and lemmas only; no assumptions.
// =====================================================================================================
pub mod vxl {
use vstd::prelude::*;
/// Unicode White_Space, what str::trim removes
pub open spec fn white(c: char) -> bool {
    ('\u{9}' <= c && c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200a}')
    || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
/// str::split(c)
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let p = split_at(s.drop_last(), c);
        if s.last() == c { p.push(Seq::<char>::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// the place of the first c, or the length
pub open spec fn first_at(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + first_at(s.skip(1), c) } }
/// str::splitn(2, c)
pub open spec fn cut(s: Seq<char>, c: char) -> Seq<Seq<char>> {
    if s.contains(c) { seq![s.take(first_at(s, c)), s.skip(first_at(s, c) + 1)] } else { seq![s] }
}
pub struct PView { pub name: Seq<char>, pub value: Option<Seq<char>> }
pub struct EView { pub name: Seq<char>, pub params: Seq<PView> }
pub open spec fn param_of(x: Seq<char>) -> PView {
    let p = cut(x, '=');
    PView { name: trimmed(p[0]), value: if p.len() > 1 { Some(trimmed(p[1])) } else { None } }
}
pub open spec fn params_of(ps: Seq<Seq<char>>) -> Seq<PView> { ps.map_values(|p: Seq<char>| param_of(trimmed(p))) }
/// P26: what an extension text means
pub open spec fn ext_of(s: Seq<char>) -> EView { let p = split_at(s, ';'); EView { name: trimmed(p[0]), params: params_of(p.skip(1)) } }
pub open spec fn param_text(p: PView) -> Seq<char> { p.name + match p.value { Some(v) => seq!['='] + v, None => Seq::empty() } }
pub open spec fn params_text(ps: Seq<PView>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { params_text(ps.drop_last()) + (seq![';', ' '] + param_text(ps.last())) } }
pub open spec fn ext_text(e: EView) -> Seq<char> { e.name + params_text(e.params) }
/// items of a comma list printed
pub open spec fn list_text(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { list_text(ps.drop_last()) + (seq![',', ' '] + ps.last()) }
}
/// hyper's from_comma_delimited: the pieces between commas, trimmed, without the empty ones
pub open spec fn nonempty(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else {
        let r = nonempty(ps.drop_last()); let t = trimmed(ps.last());
        if t.len() == 0 { r } else { r.push(t) }
    }
}
pub open spec fn items_of(line: Seq<char>) -> Seq<Seq<char>> { nonempty(split_at(line, ',')) }
// ---------------------------------------------------------------- lemmas
pub proof fn lemma_rtrim(s: Seq<char>) ensures rtrim(s).len() <= s.len(), rtrim(s) == s.take(rtrim(s).len() as int), rtrim(s).len() == 0 || !white(rtrim(s).last()), forall|i: int| rtrim(s).len() <= i < s.len() ==> white(#[trigger] s[i]) decreases s.len() {
    if s.len() > 0 && white(s.last()) { lemma_rtrim(s.drop_last()); assert(rtrim(s) =~= s.take(rtrim(s).len() as int)); assert forall|i: int| rtrim(s).len() <= i < s.len() implies white(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn lemma_ltrim(s: Seq<char>) ensures ltrim(s).len() <= s.len(), ltrim(s) == s.skip(s.len() - ltrim(s).len()), ltrim(s).len() == 0 || !white(ltrim(s)[0]), forall|i: int| 0 <= i < s.len() - ltrim(s).len() ==> white(#[trigger] s[i]) decreases s.len() {
    if s.len() > 0 && white(s[0]) { lemma_ltrim(s.skip(1)); assert(ltrim(s) =~= s.skip(s.len() - ltrim(s).len())); assert forall|i: int| 0 <= i < s.len() - ltrim(s).len() implies white(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } } else { assert(s.skip(0) =~= s); }
}
pub open spec fn tight(s: Seq<char>) -> bool { s.len() == 0 || (!white(s[0]) && !white(s.last())) }
/// trimming gives a text without blanks at its ends, a piece of the original
pub proof fn lemma_trimmed(s: Seq<char>)
    ensures tight(trimmed(s)), forall|c: char| trimmed(s).contains(c) ==> s.contains(c), tight(s) ==> trimmed(s) == s
{
    lemma_ltrim(s); lemma_rtrim(ltrim(s));
    let t = trimmed(s); let l = ltrim(s); let k = s.len() - l.len();
    assert(t =~= l.take(t.len() as int)); assert(l =~= s.skip(k));
    if t.len() > 0 { assert(t[0] == l[0]); assert(l.len() > 0); }
    assert forall|c: char| t.contains(c) implies s.contains(c) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[k + i] == c); }
}
pub proof fn lemma_ltrim_all(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) ensures ltrim(s).len() == 0 decreases s.len() {
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies white(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } lemma_ltrim_all(s.skip(1)); }
}
/// blanks in front of or behind a tight text are trimmed away
pub proof fn lemma_pad(a: Seq<char>, t: Seq<char>, b: Seq<char>)
    requires tight(t), forall|i: int| 0 <= i < a.len() ==> white(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> white(#[trigger] b[i])
    ensures trimmed(a + t + b) == t
    decreases a.len(), b.len()
{
    let s = a + t + b;
    if t.len() == 0 {
        assert forall|i: int| 0 <= i < s.len() implies white(#[trigger] s[i]) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } }
        lemma_ltrim_all(s); assert(rtrim(ltrim(s)) =~= t);
    } else {
        lemma_ltrim(s);
        let n = s.len() - ltrim(s).len();
        assert(s[a.len() as int] == t[0]);
        if n < a.len() { assert(ltrim(s)[0] == s[n]); assert(s[n] == a[n]); }
        assert(n == a.len());
        let l = ltrim(s);
        assert(l =~= t + b);
        lemma_rtrim(l);
        let m = rtrim(l).len();
        assert(l[t.len() - 1] == t.last());
        if m > t.len() { assert(rtrim(l).last() == l[m - 1]); assert(l[m - 1] == b[m - 1 - t.len()]); }
        assert(rtrim(l) =~= t);
    }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split_at(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
pub proof fn lemma_split_none(s: Seq<char>, c: char) requires !s.contains(c) ensures split_at(s, c) == seq![s] decreases s.len() {
    if s.len() > 0 {
        let d = s.drop_last();
        assert(!d.contains(c)) by { if d.contains(c) { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; assert(s[i] == c); } }
        assert(s[s.len() - 1] == s.last());
        lemma_split_none(d, c); assert(d.push(s.last()) =~= s);
        assert(split_at(s, c) =~= seq![s]);
    } else { assert(s =~= Seq::<char>::empty()); }
}
/// pieces hold no separator and only characters of the text
pub proof fn lemma_split_pieces(s: Seq<char>, c: char)
    ensures split_at(s, c).len() >= 1, forall|i: int, d: char| 0 <= i < split_at(s, c).len() && (#[trigger] split_at(s, c)[i].contains(d)) ==> s.contains(d) && d != c
    decreases s.len()
{
    if s.len() > 0 {
        let q = s.drop_last(); let p = split_at(q, c); let r = split_at(s, c);
        lemma_split_pieces(q, c);
        assert forall|i: int, d: char| 0 <= i < r.len() && (#[trigger] r[i].contains(d)) implies s.contains(d) && d != c by {
            if s.last() == c {
                if i < p.len() { assert(r[i] == p[i]); assert(q.contains(d)); let j = choose|j: int| 0 <= j < q.len() && q[j] == d; assert(s[j] == d); }
            } else if i < p.len() - 1 { assert(r[i] == p[i]); assert(q.contains(d)); let j = choose|j: int| 0 <= j < q.len() && q[j] == d; assert(s[j] == d); }
            else {
                let k = choose|k: int| 0 <= k < r[i].len() && r[i][k] == d;
                if k < p.last().len() { assert(p.last()[k] == d); assert(p[p.len() - 1].contains(d)); assert(q.contains(d)); let j = choose|j: int| 0 <= j < q.len() && q[j] == d; assert(s[j] == d); }
                else { assert(d == s.last()); assert(s[s.len() - 1] == d); }
            }
        }
    }
}
pub proof fn lemma_split_join(a: Seq<char>, c: char, b: Seq<char>)
    ensures split_at(a + seq![c] + b, c) == split_at(a, c) + split_at(b, c)
    decreases b.len()
{
    let s = a + seq![c] + b;
    lemma_split_len(a, c); lemma_split_len(b, c);
    if b.len() == 0 {
        assert(s.drop_last() =~= a); assert(s.last() == c);
        assert(split_at(s, c) =~= split_at(a, c) + split_at(b, c));
    } else {
        let b2 = b.drop_last();
        lemma_split_join(a, c, b2); lemma_split_len(b2, c);
        assert(s.drop_last() =~= a + seq![c] + b2); assert(s.last() == b.last());
        let p = split_at(a, c) + split_at(b2, c);
        assert(p.last() == split_at(b2, c).last()); assert(p.drop_last() =~= split_at(a, c) + split_at(b2, c).drop_last());
        assert(split_at(s, c) =~= split_at(a, c) + split_at(b, c));
    }
}
pub proof fn lemma_first_at(s: Seq<char>, c: char)
    ensures 0 <= first_at(s, c) <= s.len(), first_at(s, c) < s.len() <==> s.contains(c), first_at(s, c) < s.len() ==> s[first_at(s, c)] == c,
        forall|i: int| 0 <= i < first_at(s, c) ==> #[trigger] s[i] != c
    decreases s.len()
{
    if s.len() == 0 {} else if s[0] == c { assert(s.contains(c)); } else {
        let t = s.skip(1); lemma_first_at(t, c);
        assert(s.contains(c) <==> t.contains(c)) by {
            if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i - 1] == c); }
            if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i + 1] == c); }
        }
        assert forall|i: int| 0 <= i < first_at(s, c) implies #[trigger] s[i] != c by { if i > 0 { assert(t[i - 1] == s[i]); } }
    }
}
/// an extension parameter and its parts are texts of this shape
pub open spec fn param_wf(p: PView) -> bool {
    tight(p.name) && !p.name.contains('=') && !p.name.contains(';') && (p.value matches Some(v) ==> tight(v) && !v.contains(';'))
}
pub open spec fn ext_wf(e: EView) -> bool { tight(e.name) && !e.name.contains(';') && forall|i: int| 0 <= i < e.params.len() ==> param_wf(#[trigger] e.params[i]) }
pub proof fn lemma_cut(x: Seq<char>)
    ensures cut(x, '=').len() == 1 || cut(x, '=').len() == 2, !cut(x, '=')[0].contains('='), forall|i: int, d: char| 0 <= i < cut(x, '=').len() && (#[trigger] cut(x, '=')[i].contains(d)) ==> x.contains(d)
{
    lemma_first_at(x, '=');
    let p = cut(x, '=');
    assert forall|i: int, d: char| 0 <= i < p.len() && (#[trigger] p[i].contains(d)) implies x.contains(d) by {
        let k = choose|k: int| 0 <= k < p[i].len() && p[i][k] == d;
        if x.contains('=') { if i == 0 { assert(x[k] == d); } else { assert(x[first_at(x, '=') + 1 + k] == d); } }
    }
    if x.contains('=') { if p[0].contains('=') { let k = choose|k: int| 0 <= k < p[0].len() && p[0][k] == '='; assert(x[k] == '='); } }
}
/// what parsing yields is always of that shape
pub proof fn theorem_ext_parsed_wf(s: Seq<char>) //P26
    ensures ext_wf(ext_of(s)) //P26
{
    let p = split_at(s, ';');
    lemma_split_pieces(s, ';');
    lemma_trimmed(p[0]);
    assert(p[0] == p[0 as int]);
    if trimmed(p[0]).contains(';') { assert(p[0].contains(';')); }
    let e = ext_of(s);
    assert forall|i: int| 0 <= i < e.params.len() implies param_wf(#[trigger] e.params[i]) by {
        let q = p.skip(1)[i]; assert(q == p[i + 1]);
        let x = trimmed(q); lemma_trimmed(q);
        assert(!x.contains(';')) by { if x.contains(';') { assert(q.contains(';')); assert(p[i + 1].contains(';')); } }
        lemma_cut(x); let c = cut(x, '=');
        lemma_trimmed(c[0]);
        if trimmed(c[0]).contains(';') { assert(c[0].contains(';')); }
        if trimmed(c[0]).contains('=') { assert(c[0].contains('=')); }
        if c.len() > 1 { lemma_trimmed(c[1]); if trimmed(c[1]).contains(';') { assert(c[1].contains(';')); } }
        assert(e.params[i] == param_of(x));
    }
}
pub proof fn lemma_param_text(p: PView)
    requires param_wf(p)
    ensures tight(param_text(p)), !param_text(p).contains(';'), param_of(param_text(p)) == p
{
    let x = param_text(p);
    match p.value {
        None => { assert(x =~= p.name); lemma_trimmed(x); assert(cut(x, '=') =~= seq![x]); }
        Some(v) => {
            assert(x[p.name.len() as int] == '='); assert(x.contains('='));
            lemma_first_at(x, '=');
            if first_at(x, '=') < p.name.len() { assert(p.name[first_at(x, '=')] == x[first_at(x, '=')]); }
            assert(first_at(x, '=') == p.name.len());
            assert(x.take(p.name.len() as int) =~= p.name); assert(x.skip((p.name.len() + 1) as int) =~= v);
            lemma_trimmed(p.name); lemma_trimmed(v);
            assert(x.len() > 0);
            if p.name.len() > 0 { assert(x[0] == p.name[0]); }
            if v.len() > 0 { assert(x.last() == v.last()); } else { assert(x.last() == '='); }
            if x.contains(';') { let k = choose|k: int| 0 <= k < x.len() && x[k] == ';'; if k < p.name.len() { assert(p.name[k] == ';'); } else { assert(v[k - p.name.len() - 1] == ';'); } }
        }
    }
}
/// P26: printing an extension and parsing it again yields an equal one
pub proof fn theorem_ext_roundtrip(e: EView) //P26
    requires ext_wf(e)
    ensures ext_of(ext_text(e)) == e //P26
    decreases e.params.len()
{
    let s = ext_text(e);
    if e.params.len() == 0 {
        assert(s =~= e.name); lemma_split_none(s, ';'); lemma_trimmed(s);
        assert(ext_of(s).params =~= e.params);
    } else {
        let f = EView { name: e.name, params: e.params.drop_last() };
        assert forall|i: int| 0 <= i < f.params.len() implies param_wf(#[trigger] f.params[i]) by { assert(f.params[i] == e.params[i]); }
        theorem_ext_roundtrip(f);
        let t = ext_text(f); let l = e.params.last(); let x = param_text(l);
        assert(param_wf(e.params[e.params.len() - 1]));
        lemma_param_text(l);
        let b = seq![' '] + x;
        assert(s =~= t + seq![';'] + b);
        lemma_split_join(t, ';', b);
        assert(!b.contains(';')) by { if b.contains(';') { let k = choose|k: int| 0 <= k < b.len() && b[k] == ';'; assert(x[k - 1] == ';'); } }
        lemma_split_none(b, ';'); lemma_split_len(t, ';');
        assert(b =~= seq![' '] + x + Seq::<char>::empty());
        lemma_pad(seq![' '], x, Seq::<char>::empty());
        assert(split_at(s, ';') =~= split_at(t, ';').push(b));
        assert(split_at(s, ';').skip(1) =~= split_at(t, ';').skip(1).push(b));
        assert(params_of(split_at(s, ';').skip(1)) =~= params_of(split_at(t, ';').skip(1)).push(param_of(trimmed(b))));
        assert(e.params =~= f.params.push(l));
    }
}
/// trimming the printed text first changes nothing (list parsing does)
pub proof fn theorem_ext_trimmed(s: Seq<char>) //P26
    ensures ext_of(trimmed(s)) == ext_of(s) //P26
{
    lemma_ltrim(s); lemma_rtrim(ltrim(s));
    let l = ltrim(s); let k = s.len() - l.len(); let t = trimmed(s); let m = t.len() as int;
    let a = s.take(k); let b = l.skip(m);
    assert(s =~= a + l); assert(l =~= t + b);
    assert forall|i: int| 0 <= i < a.len() implies white(#[trigger] a[i]) by { assert(a[i] == s[i]); }
    assert forall|i: int| 0 <= i < b.len() implies white(#[trigger] b[i]) by { assert(b[i] == l[m + i]); }
    lemma_ext_append(t, b); lemma_ext_prepend(a, l);
}
pub proof fn lemma_trim_append(s: Seq<char>, c: char) requires white(c) ensures trimmed(s.push(c)) == trimmed(s) {
    lemma_ltrim(s); lemma_rtrim(ltrim(s));
    let l = ltrim(s); let t = trimmed(s); let k = s.len() - l.len();
    let a = s.take(k); let b = l.skip(t.len() as int).push(c);
    assert forall|i: int| 0 <= i < a.len() implies white(#[trigger] a[i]) by { assert(a[i] == s[i]); }
    assert forall|i: int| 0 <= i < b.len() implies white(#[trigger] b[i]) by { if i < b.len() - 1 { assert(b[i] == l[t.len() + i]); } }
    lemma_trimmed(s);
    assert(s.push(c) =~= a + t + b);
    lemma_pad(a, t, b);
}
pub proof fn lemma_trim_prepend(c: char, s: Seq<char>) requires white(c) ensures trimmed(seq![c] + s) == trimmed(s) {
    let x = seq![c] + s; assert(x.skip(1) =~= s); assert(x[0] == c); assert(ltrim(x) == ltrim(x.skip(1)));
}
pub proof fn lemma_ext_append(t: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < b.len() ==> white(#[trigger] b[i])
    ensures ext_of(t + b) == ext_of(t)
    decreases b.len()
{
    if b.len() == 0 { assert(t + b =~= t); } else {
        let b2 = b.drop_last(); let u = t + b2; let c = b.last();
        assert forall|i: int| 0 <= i < b2.len() implies white(#[trigger] b2[i]) by { assert(b2[i] == b[i]); }
        lemma_ext_append(t, b2);
        assert(white(b[b.len() - 1]));
        let s = t + b; assert(s.drop_last() =~= u); assert(s.last() == c); assert(c != ';');
        lemma_split_len(u, ';');
        let p = split_at(u, ';'); let q = split_at(s, ';');
        assert(q =~= p.drop_last().push(p.last().push(c)));
        lemma_trim_append(p.last(), c);
        assert forall|i: int| 0 <= i < p.len() implies trimmed(q[i]) == trimmed(p[i]) by {}
        assert(params_of(q.skip(1)) =~= params_of(p.skip(1))) by {
            assert forall|i: int| 0 <= i < p.len() - 1 implies params_of(q.skip(1))[i] == params_of(p.skip(1))[i] by { assert(q.skip(1)[i] == q[i + 1]); assert(p.skip(1)[i] == p[i + 1]); assert(trimmed(q[i + 1]) == trimmed(p[i + 1])); }
        }
        assert(trimmed(q[0]) == trimmed(p[0]));
    }
}
pub proof fn lemma_split_front(c: char, s: Seq<char>, sep: char)
    requires c != sep
    ensures split_at(seq![c] + s, sep).len() == split_at(s, sep).len(), split_at(s, sep).len() >= 1, split_at(seq![c] + s, sep)[0] == seq![c] + split_at(s, sep)[0],
        forall|i: int| 1 <= i < split_at(s, sep).len() ==> #[trigger] split_at(seq![c] + s, sep)[i] == split_at(s, sep)[i]
    decreases s.len()
{
    let x = seq![c] + s;
    if s.len() == 0 {
        assert(x.drop_last() =~= Seq::<char>::empty()); assert(x.last() == c);
        let p = split_at(x.drop_last(), sep);
        assert(p =~= seq![Seq::<char>::empty()]);
        assert(split_at(x, sep) =~= seq![seq![c]]) by { assert(p.last().push(c) =~= seq![c]); }
        assert(split_at(s, sep) =~= seq![Seq::<char>::empty()]);
        assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
    } else {
        let d = s.drop_last(); lemma_split_front(c, d, sep);
        assert(x.drop_last() =~= seq![c] + d); assert(x.last() == s.last());
        let p = split_at(d, sep); let q = split_at(seq![c] + d, sep);
        if s.last() != sep && p.len() == 1 { assert((seq![c] + p[0]).push(s.last()) =~= seq![c] + p[0].push(s.last())); }
    }
}
pub proof fn lemma_ext_prepend(a: Seq<char>, s: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> white(#[trigger] a[i])
    ensures ext_of(a + s) == ext_of(s)
    decreases a.len()
{
    if a.len() == 0 { assert(a + s =~= s); } else {
        let a2 = a.skip(1);
        assert forall|i: int| 0 <= i < a2.len() implies white(#[trigger] a2[i]) by { assert(a2[i] == a[i + 1]); }
        lemma_ext_prepend(a2, s);
        let u = a2 + s; let c = a[0]; assert(a + s =~= seq![c] + u);
        lemma_split_front(c, u, ';');
        let p = split_at(u, ';'); let q = split_at(seq![c] + u, ';');
        lemma_trim_prepend(c, p[0]);
        assert(q.skip(1) =~= p.skip(1));
    }
}
// ---- comma lists
pub open spec fn item_wf(t: Seq<char>) -> bool { t.len() > 0 && !t.contains(',') && trimmed(t).len() > 0 }
pub proof fn lemma_nonempty_append(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures nonempty(a + b) == nonempty(a) + nonempty(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(nonempty(a) + nonempty(b) =~= nonempty(a)); } else {
        lemma_nonempty_append(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        assert(nonempty(a + b) =~= nonempty(a) + nonempty(b));
    }
}
/// P26: the items of a printed list are the printed items, trimmed
pub proof fn theorem_list_roundtrip(ps: Seq<Seq<char>>) //P26
    requires forall|i: int| 0 <= i < ps.len() ==> item_wf(#[trigger] ps[i])
    ensures items_of(list_text(ps)) == ps.map_values(|p: Seq<char>| trimmed(p)) //P26
    decreases ps.len()
{
    let s = list_text(ps); let want = ps.map_values(|p: Seq<char>| trimmed(p));
    reveal_with_fuel(nonempty, 3);
    if ps.len() == 0 { let e = Seq::<char>::empty(); assert(s =~= e); lemma_split_none(s, ','); lemma_trimmed(e); assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty()); assert(items_of(s) =~= want); }
    else if ps.len() == 1 { assert(item_wf(ps[0])); lemma_split_none(s, ','); assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty()); assert(items_of(s) =~= want); }
    else {
        let r = ps.drop_last(); let l = ps.last();
        assert forall|i: int| 0 <= i < r.len() implies item_wf(#[trigger] r[i]) by { assert(r[i] == ps[i]); }
        theorem_list_roundtrip(r);
        assert(item_wf(ps[ps.len() - 1]));
        let b = seq![' '] + l; let t = list_text(r);
        assert(s =~= t + seq![','] + b);
        lemma_split_join(t, ',', b);
        assert(!b.contains(',')) by { if b.contains(',') { let k = choose|k: int| 0 <= k < b.len() && b[k] == ','; assert(l[k - 1] == ','); } }
        lemma_split_none(b, ',');
        lemma_nonempty_append(split_at(t, ','), seq![b]);
        lemma_trim_prepend(' ', l);
        assert(seq![b].drop_last() =~= Seq::<Seq<char>>::empty()); assert(nonempty(seq![b]) =~= seq![trimmed(l)]);
        assert(items_of(s) =~= items_of(t).push(trimmed(l)));
        assert(items_of(s) =~= want);
    }
}
}
pub use vxl::*;
