// =====================================================================================================
// Specification functions: the asynchronous codec as a state machine over the buffered bytes
// =====================================================================================================
pub open spec fn cat_v(b: Seq<FrameV>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else { cat_v(b.drop_last()) + b.last().pay }
}
/// these frames form a legal message
pub open spec fn fvs_ok(b: Seq<FrameV>) -> bool {
    &&& b.len() > 0
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).rsv =~= seq![false, false, false]
    &&& forall|i: int| 1 <= i < b.len() ==> (#[trigger] b[i]).op == 0
    &&& msg_ok(b[0].op, cat_v(b))
}
pub proof fn lemma_cat_v(v: Seq<DataFrame>)
    ensures cat_frames(v) == cat_v(fvs(v))
    decreases v.len()
{
    if v.len() > 0 { lemma_cat_v(v.drop_last()); assert(fvs(v).drop_last() =~= fvs(v.drop_last())); }
}
pub proof fn lemma_codec_facts()
    ensures
        forall|v: Seq<DataFrame>| #[trigger] cat_frames(v) == cat_v(fvs(v)),
        forall|v: Seq<DataFrame>| v.len() > 0 ==> (#[trigger] fvs(v))[0].op == v[0].v_op(),
        forall|v: Seq<DataFrame>| v.len() == 1 ==> #[trigger] cat_frames(v) == v[0].v_pay() && ((frames_ok(v) && msg_ok(v[0].v_op(), cat_frames(v))) == fvs_ok(seq![fv(v[0])])),
        forall|b: Seq<DataFrame>, s: Seq<usize>| #![trigger fvs(b), seq_sum(s)] s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len() + frame_overhead())
            ==> seq_sum(s) == cx_weight(fvs(b)),
        forall|v: Seq<DataFrame>| v.len() > 0 ==> fvs_ok(#[trigger] fvs(v)) == (frames_ok(v) && msg_ok(v[0].v_op(), cat_frames(v))),
        forall|v: Seq<DataFrame>, f: DataFrame| fvs(#[trigger] v.push(f)) == fvs(v).push(fv(f)),
{
    assert forall|v: Seq<DataFrame>, f: DataFrame| fvs(#[trigger] v.push(f)) == fvs(v).push(fv(f)) by { assert(fvs(v.push(f)) =~= fvs(v).push(fv(f))); }
    assert forall|v: Seq<DataFrame>| #[trigger] cat_frames(v) == cat_v(fvs(v)) by { lemma_cat_v(v); }
    assert forall|b: Seq<DataFrame>, s: Seq<usize>| #![trigger fvs(b), seq_sum(s)] s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len() + frame_overhead())
            implies seq_sum(s) == cx_weight(fvs(b)) by { lemma_weight_sum(b, s); }
    assert forall|v: Seq<DataFrame>| v.len() > 0 implies fvs_ok(#[trigger] fvs(v)) == (frames_ok(v) && msg_ok(v[0].v_op(), cat_frames(v))) by {
        lemma_cat_v(v);
        let b = fvs(v);
        assert forall|i: int| 0 <= i < v.len() implies b[i].rsv == (#[trigger] v[i]).v_rsv() && b[i].op == v[i].v_op() by {}
        if frames_ok(v) {
            assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).rsv =~= seq![false, false, false] by { assert(v[i].v_rsv() =~= seq![false, false, false]); }
            assert forall|i: int| 1 <= i < b.len() implies (#[trigger] b[i]).op == 0 by { assert(v[i].v_op() == 0); }
        }
        if fvs_ok(b) {
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).v_rsv() =~= seq![false, false, false] by { assert(b[i].rsv =~= seq![false, false, false]); }
            assert forall|i: int| 1 <= i < v.len() implies (#[trigger] v[i]).v_op() == 0 by { assert(b[i].op == 0); }
        }
    }
    assert forall|v: Seq<DataFrame>| v.len() == 1 implies #[trigger] cat_frames(v) == v[0].v_pay() && ((frames_ok(v) && msg_ok(v[0].v_op(), cat_frames(v))) == fvs_ok(seq![fv(v[0])])) by {
        assert(fvs(v) =~= seq![fv(v[0])]);
        assert(v.drop_last() =~= Seq::<DataFrame>::empty());
        assert(cat_frames(v) =~= v[0].v_pay()) by { reveal_with_fuel(cat_frames, 2); }
    }
}
pub proof fn lemma_weight_sum(b: Seq<DataFrame>, s: Seq<usize>)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len() + frame_overhead(),
    ensures seq_sum(s) == cx_weight(fvs(b))
    decreases b.len()
{
    if b.len() > 0 {
        lemma_weight_sum(b.drop_last(), s.drop_last());
        assert(fvs(b).drop_last() =~= fvs(b.drop_last()));
    }
}
pub enum CxOut {
    /// the bytes of the next frame are not all there: the fragments collected, the bytes left untouched
    Wait(Seq<FrameV>, Seq<u8>),
    Msg(Seq<FrameV>, Seq<u8>),
    Ctrl(FrameV, Seq<FrameV>, Seq<u8>),
    Bad(RxErr, Seq<FrameV>),
}
pub open spec fn cx_weight(b: Seq<FrameV>) -> nat { total_pay(b) + frame_overhead() * b.len() }
/// one call of the message decoder with fragments `buf` and buffered bytes `s`
pub open spec fn cx_run(buf: Seq<FrameV>, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) -> CxOut decreases s.len() {
    match rx_read(s, req, maxf) {
        RxRead::Bad(RxErr::NoData) => CxOut::Wait(buf, s),
        RxRead::Bad(e) => CxOut::Bad(e, buf),
        RxRead::Frame(f, t) => {
            if f.op >= 8 { CxOut::Ctrl(f, buf, t) }
            else if (f.op == 0) == (buf.len() == 0) { CxOut::Bad(RxErr::Sequence, buf) }
            else if f.fin { CxOut::Msg(buf.push(f), t) }
            else if buf.len() + 1 >= max_frames() { CxOut::Bad(RxErr::TooMany, buf.push(f)) }
            else if cx_weight(buf.push(f)) > maxm { CxOut::Bad(RxErr::TooBig, buf.push(f)) }
            else if t.len() < s.len() { cx_run(buf.push(f), t, req, maxf, maxm) }
            else { CxOut::Bad(RxErr::NoData, buf) }
        }
    }
}
/// P13/P15: what the codec keeps between calls while no error has been reported
pub open spec fn cx_inv(buf: Seq<FrameV>, maxm: nat) -> bool {
    open_msg(buf) && buf.len() < max_frames() && (buf.len() > 0 ==> cx_weight(buf) <= maxm)
}
pub proof fn theorem_cx_invariant(buf: Seq<FrameV>, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P13 P15
    requires cx_inv(buf, maxm),
    ensures
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Wait(b, t) ==> cx_inv(b, maxm), //P15
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Ctrl(f, b, t) ==> cx_inv(b, maxm) && f.op >= 8, //P13 P15
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Msg(b, t) ==> b.len() > 0 && b.last().fin && open_msg(b.drop_last()) && (b.len() > 1 ==> b.last().op == 0) && 0 < b[0].op < 8, //P13
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Bad(e, b) ==> open_msg(b) && b.len() <= max_frames() && (e is TooBig ==> cx_weight(b) > maxm) && (e is TooMany ==> b.len() >= max_frames()), //P15
        cx_inv(Seq::empty(), maxm), //P15
    decreases s.len()
{
    lemma_rx_read(s, req, maxf);
    match rx_read(s, req, maxf) {
        RxRead::Bad(_) => {}
        RxRead::Frame(f, t) => {
            let b2 = buf.push(f);
            assert(b2.drop_last() =~= buf);
            lemma_total_push(buf, f);
            if f.op < 8 && (f.op == 0) != (buf.len() == 0) && !f.fin && buf.len() + 1 < max_frames() && cx_weight(b2) <= maxm {
                theorem_cx_invariant(b2, t, req, maxf, maxm);
            }
        }
    }
}
/// P13: fragments already collected are never changed
pub proof fn theorem_cx_keeps(buf: Seq<FrameV>, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P13
    ensures
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Wait(b, t) ==> is_prefix(buf, b), //P13
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Ctrl(f, b, t) ==> is_prefix(buf, b), //P13
        cx_run(buf, s, req, maxf, maxm) matches CxOut::Msg(b, t) ==> is_prefix(buf, b), //P13
    decreases s.len()
{
    hide(rx_read); hide(is_prefix);
    lemma_rx_read(s, req, maxf);
    match rx_read(s, req, maxf) {
        RxRead::Bad(_) => { lemma_prefix_push(buf, frame_at(s), buf); }
        RxRead::Frame(f, t) => {
            let b2 = buf.push(f);
            lemma_prefix_push(buf, f, buf);
            if f.op < 8 && (f.op == 0) != (buf.len() == 0) && !f.fin && buf.len() + 1 < max_frames() && cx_weight(b2) <= maxm {
                theorem_cx_keeps(b2, t, req, maxf, maxm);
                match cx_run(b2, t, req, maxf, maxm) {
                    CxOut::Wait(b, _) => { lemma_prefix_push(buf, f, b); }
                    CxOut::Ctrl(_, b, _) => { lemma_prefix_push(buf, f, b); }
                    CxOut::Msg(b, _) => { lemma_prefix_push(buf, f, b); }
                    CxOut::Bad(_, b) => {}
                }
            }
        }
    }
}
/// P14: decoding a prefix first and going on when the rest has arrived gives what decoding the whole gives
pub proof fn theorem_cx_chunking(buf: Seq<FrameV>, p: Seq<u8>, x: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P14
    ensures
        cx_run(buf, p, req, maxf, maxm) matches CxOut::Wait(b, rest) ==> cx_run(buf, p + x, req, maxf, maxm) == cx_run(b, rest + x, req, maxf, maxm), //P14
        cx_run(buf, p, req, maxf, maxm) matches CxOut::Msg(b, t) ==> cx_run(buf, p + x, req, maxf, maxm) == CxOut::Msg(b, t + x), //P14
        cx_run(buf, p, req, maxf, maxm) matches CxOut::Ctrl(f, b, t) ==> cx_run(buf, p + x, req, maxf, maxm) == CxOut::Ctrl(f, b, t + x), //P14
        cx_run(buf, p, req, maxf, maxm) matches CxOut::Bad(e, b) ==> cx_run(buf, p + x, req, maxf, maxm) == CxOut::Bad(e, b), //P14
    decreases p.len()
{
    theorem_prefix_stable(p, x, req, maxf);
    lemma_rx_read(p, req, maxf);
    lemma_rx_read(p + x, req, maxf);
    match rx_read(p, req, maxf) {
        RxRead::Bad(_) => {}
        RxRead::Frame(f, t) => {
            let b2 = buf.push(f);
            if f.op < 8 && (f.op == 0) != (buf.len() == 0) && !f.fin && buf.len() + 1 < max_frames() && cx_weight(b2) <= maxm {
                theorem_cx_chunking(b2, t, x, req, maxf, maxm);
            }
        }
    }
}
