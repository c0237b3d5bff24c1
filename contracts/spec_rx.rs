// =====================================================================================================
// Specification functions: the receiving state machine (RFC 6455 5.4), limits
// =====================================================================================================
/// a frame as a value
pub struct FrameV { pub fin: bool, pub rsv: Seq<bool>, pub op: u8, pub pay: Seq<u8> }
pub open spec fn fv(f: DataFrame) -> FrameV { FrameV { fin: f.finished, rsv: f.reserved@, op: f.opcode as u8, pay: f.data@ } }
pub open spec fn fvs(b: Seq<DataFrame>) -> Seq<FrameV> { b.map_values(|f: DataFrame| fv(f)) }
pub open spec fn frame_at(s: Seq<u8>) -> FrameV {
    FrameV {
        fin: s[0] & 0x80u8 == 0x80u8,
        rsv: seq![s[0] & 0x40u8 == 0x40u8, s[0] & 0x20u8 == 0x20u8, s[0] & 0x10u8 == 0x10u8],
        op: d_op(s), pay: f_payload(s),
    }
}
pub open spec fn total_pay(b: Seq<FrameV>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { total_pay(b.drop_last()) + b.last().pay.len() }
}
pub enum RxErr { Header, TooLong, Masking, NoData, Sequence, TooMany, TooBig }
pub enum RxRead { Frame(FrameV, Seq<u8>), Bad(RxErr) }
/// reading one frame from a byte stream, as RFC 6455 and the frame limit define it
pub open spec fn rx_read(s: Seq<u8>, req: bool, maxf: nat) -> RxRead {
    if d_complete(s) && d_bad(s) { RxRead::Bad(RxErr::Header) }
    else if !d_complete(s) { RxRead::Bad(RxErr::NoData) }
    else if d_len(s) > maxf { RxRead::Bad(RxErr::TooLong) }
    else if !f_complete(s) { RxRead::Bad(RxErr::NoData) }
    else if d_masked(s) != req { RxRead::Bad(RxErr::Masking) }
    else { RxRead::Frame(frame_at(s), s.skip(f_total(s))) }
}
pub open spec fn max_frames() -> nat { 1024 * 1024 }
pub open spec fn frame_overhead() -> nat { 64 }
pub enum RxOut {
    /// a complete message, the stream behind it
    Msg(Seq<FrameV>, Seq<u8>),
    /// a control frame between fragments, the fragments collected so far, the stream behind it
    Ctrl(FrameV, Seq<FrameV>, Seq<u8>),
    /// an error and the fragments collected so far
    Bad(RxErr, Seq<FrameV>),
}
/// an open message with fragments `buf` goes on in s
pub open spec fn rx_cont(buf: Seq<FrameV>, acc: nat, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) -> RxOut decreases s.len() {
    match rx_read(s, req, maxf) {
        RxRead::Bad(e) => RxOut::Bad(e, buf),
        RxRead::Frame(f, t) => {
            if f.op >= 8 { RxOut::Ctrl(f, buf, t) }
            else if f.op != 0 { RxOut::Bad(RxErr::Sequence, buf) }
            else if f.fin { RxOut::Msg(buf.push(f), t) }
            else if buf.len() + 1 >= max_frames() { RxOut::Bad(RxErr::TooMany, buf.push(f)) }
            else if acc + f.pay.len() + frame_overhead() >= maxm { RxOut::Bad(RxErr::TooBig, buf.push(f)) }
            else if t.len() < s.len() { rx_cont(buf.push(f), acc + f.pay.len() + frame_overhead(), t, req, maxf, maxm) }
            else { RxOut::Bad(RxErr::NoData, buf) }
        }
    }
}
/// one call of the blocking receiver
pub open spec fn rx_run(buf: Seq<FrameV>, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) -> RxOut {
    if buf.len() > 0 { rx_cont(buf, total_pay(buf), s, req, maxf, maxm) }
    else {
        match rx_read(s, req, maxf) {
            RxRead::Bad(e) => RxOut::Bad(e, buf),
            RxRead::Frame(f, t) => {
                if f.op == 0 { RxOut::Bad(RxErr::Sequence, buf) }
                else if f.fin { RxOut::Msg(seq![f], t) }
                else { rx_cont(seq![f], f.pay.len() + frame_overhead(), t, req, maxf, maxm) }
            }
        }
    }
}
/// what the receiver keeps between calls while no error has been reported
pub open spec fn rx_inv(buf: Seq<FrameV>, maxf: nat, maxm: nat) -> bool {
    &&& buf.len() < max_frames()
    &&& total_pay(buf) <= maxm + maxf
    &&& buf.len() > 0 ==> 0 < buf[0].op < 8
    &&& forall|i: int| 1 <= i < buf.len() ==> (#[trigger] buf[i]).op == 0
    &&& forall|i: int| 0 <= i < buf.len() ==> !(#[trigger] buf[i]).fin
}
pub open spec fn open_msg(buf: Seq<FrameV>) -> bool {
    &&& buf.len() > 0 ==> 0 < buf[0].op < 8
    &&& forall|i: int| 1 <= i < buf.len() ==> (#[trigger] buf[i]).op == 0
    &&& forall|i: int| 0 <= i < buf.len() ==> !(#[trigger] buf[i]).fin
}
pub proof fn lemma_total_push(b: Seq<FrameV>, f: FrameV)
    ensures total_pay(b.push(f)) == total_pay(b) + f.pay.len()
{ assert(b.push(f).drop_last() =~= b); }
/// a frame read from a stream is never empty on the wire, and no frame is longer than the limit
pub proof fn lemma_rx_read(s: Seq<u8>, req: bool, maxf: nat)
    ensures rx_read(s, req, maxf) matches RxRead::Frame(f, t) ==>
        t.len() < s.len() && f.pay.len() <= maxf && f.op <= 15 && f.rsv.len() == 3 && (f.op >= 8 ==> f.fin),
{
    lemma_header_bits();
    if rx_read(s, req, maxf) is Frame {
        assert(s[0] & 0x80 == 0 || s[0] & 0x80 == 0x80);
    }
}
// ---- theorems over the state machine
/// P15: while no error is reported, what is retained is bounded; P12: it is always an open message
pub proof fn theorem_rx_retained(buf: Seq<FrameV>, acc: nat, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P15 P12
    requires buf.len() < max_frames(), open_msg(buf), total_pay(buf) <= acc, buf.len() > 0,
    ensures
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Ctrl(f, b, t) ==>
            open_msg(b) && b.len() < max_frames() && (b == buf || total_pay(b) < maxm) && f.op >= 8 && t.len() < s.len(), //P15 P12
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Msg(b, t) ==>
            b.len() > 0 && b.last().fin && b.last().op == 0 && open_msg(b.drop_last()) && t.len() < s.len(), //P12
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Bad(e, b) ==> b.len() <= max_frames() && b.len() > 0 && open_msg(b), //P15
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Bad(RxErr::TooMany, b) ==> b.len() >= max_frames(), //P15
    decreases s.len()
{
    lemma_rx_read(s, req, maxf);
    match rx_read(s, req, maxf) {
        RxRead::Bad(_) => {}
        RxRead::Frame(f, t) => {
            if f.op == 0 {
                lemma_total_push(buf, f);
                assert(buf.push(f).drop_last() =~= buf);
                if !f.fin && buf.len() + 1 < max_frames() && acc + f.pay.len() + frame_overhead() < maxm {
                    theorem_rx_retained(buf.push(f), acc + f.pay.len() + frame_overhead(), t, req, maxf, maxm);
                }
            }
        }
    }
}
/// P15: a message is refused for its size only when payload plus 64 bytes per fragment reach the limit
pub proof fn theorem_rx_not_refused(buf: Seq<FrameV>, acc: nat, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P15
    requires acc <= total_pay(buf) + frame_overhead() * buf.len()
    ensures rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Bad(RxErr::TooBig, b) ==> total_pay(b) + frame_overhead() * b.len() >= maxm //P15
    decreases s.len()
{
    lemma_rx_read(s, req, maxf);
    match rx_read(s, req, maxf) {
        RxRead::Bad(_) => {}
        RxRead::Frame(f, t) => {
            lemma_total_push(buf, f);
            if f.op == 0 && !f.fin && buf.len() + 1 < max_frames() && acc + f.pay.len() + frame_overhead() < maxm {
                theorem_rx_not_refused(buf.push(f), acc + f.pay.len() + frame_overhead(), t, req, maxf, maxm);
            }
        }
    }
}
/// P12: control frames do not alter the fragments: the collected fragments are exactly the data frames read
pub open spec fn is_prefix(a: Seq<FrameV>, b: Seq<FrameV>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub mod vxp {
    use vstd::prelude::*;
pub proof fn lemma_take_trans<A>(a: Seq<A>, x: A, b: Seq<A>)
    ensures a.take(a.len() as int) == a, a.push(x).take(a.len() as int) == a,
        b.len() > a.len() && b.take(a.len() as int + 1) == a.push(x) ==> b.take(a.len() as int) == a,
{
    let n = a.len() as int;
    assert(a.take(n) =~= a);
    assert(a.push(x).take(n) =~= a);
    if b.len() > n && b.take(n + 1) == a.push(x) {
        assert forall|i: int| 0 <= i < n implies b.take(n)[i] == a[i] by { assert(b.take(n + 1)[i] == b[i]); assert(a.push(x)[i] == a[i]); }
        assert(b.take(n) =~= a);
    }
}
}
pub proof fn lemma_prefix_push(buf: Seq<FrameV>, f: FrameV, b: Seq<FrameV>)
    ensures is_prefix(buf, buf), is_prefix(buf, buf.push(f)), is_prefix(buf.push(f), b) ==> is_prefix(buf, b),
{
    vxp::lemma_take_trans(buf, f, b);
}
pub proof fn theorem_rx_keeps(buf: Seq<FrameV>, acc: nat, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P12
    ensures
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Ctrl(f, b, t) ==> is_prefix(buf, b), //P12
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Msg(b, t) ==> is_prefix(buf, b), //P12
        rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Bad(e, b) ==> is_prefix(buf, b), //P12
    decreases s.len()
{
    hide(rx_read); hide(is_prefix);
    lemma_rx_read(s, req, maxf);
    match rx_read(s, req, maxf) {
        RxRead::Bad(_) => { lemma_prefix_push(buf, frame_at(s), buf); }
        RxRead::Frame(f, t) => {
            lemma_prefix_push(buf, f, buf);
            if f.op == 0 && !f.fin && buf.len() + 1 < max_frames() && acc + f.pay.len() + frame_overhead() < maxm {
                theorem_rx_keeps(buf.push(f), acc + f.pay.len() + frame_overhead(), t, req, maxf, maxm);
                match rx_cont(buf.push(f), acc + f.pay.len() + frame_overhead(), t, req, maxf, maxm) {
                    RxOut::Ctrl(_, b, _) => { lemma_prefix_push(buf, f, b); }
                    RxOut::Msg(b, _) => { lemma_prefix_push(buf, f, b); }
                    RxOut::Bad(_, b) => { lemma_prefix_push(buf, f, b); }
                }
            }
        }
    }
}
/// all frames of a vector are in memory at once
#[verifier::external_body]
pub proof fn axiom_frames_in_memory(v: Vec<DataFrame>) ensures v@.len() <= 0x8000_0000_0000, total_pay(fvs(v@)) <= 0x8000_0000_0000 {}
pub proof fn lemma_cat_total(b: Seq<DataFrame>)
    ensures cat_frames(b).len() == total_pay(fvs(b))
    decreases b.len()
{
    if b.len() > 0 {
        lemma_cat_total(b.drop_last());
        assert(fvs(b).drop_last() =~= fvs(b.drop_last()));
    }
}
pub proof fn lemma_total_sum(b: Seq<DataFrame>, s: Seq<usize>)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len(),
    ensures seq_sum(s) == total_pay(fvs(b))
    decreases b.len()
{
    if b.len() > 0 {
        lemma_total_sum(b.drop_last(), s.drop_last());
        assert(fvs(b).drop_last() =~= fvs(b.drop_last()));
    }
}
/// `frame_is` says exactly that the value of the frame is `frame_at`
pub proof fn lemma_frame_is(s: Seq<u8>)
    ensures forall|f: DataFrame| #[trigger] frame_is(f, s) ==> fv(f) == frame_at(s),
{
    assert forall|f: DataFrame| #[trigger] frame_is(f, s) implies fv(f) == frame_at(s) by {
        assert(fv(f).rsv =~= frame_at(s).rsv);
    }
}
pub proof fn lemma_rx_all(req: bool, maxf: nat)
    ensures forall|s: Seq<u8>| (#[trigger] rx_read(s, req, maxf)) matches RxRead::Frame(f, t) ==>
        t.len() < s.len() && f.pay.len() <= maxf && f.op <= 15 && f.rsv.len() == 3 && (f.op >= 8 ==> f.fin),
{
    assert forall|s: Seq<u8>| ((#[trigger] rx_read(s, req, maxf)) matches RxRead::Frame(f, t) ==>
        t.len() < s.len() && f.pay.len() <= maxf && f.op <= 15 && f.rsv.len() == 3 && (f.op >= 8 ==> f.fin)) by { lemma_rx_read(s, req, maxf); }
}
pub proof fn lemma_fvs()
    ensures forall|b: Seq<DataFrame>, f: DataFrame| #[trigger] fvs(b.push(f)) == fvs(b).push(fv(f)),
        forall|b: Seq<DataFrame>| (#[trigger] fvs(b)).len() == b.len(),
        fvs(Seq::<DataFrame>::empty()) == Seq::<FrameV>::empty(),
        total_pay(Seq::<FrameV>::empty()) == 0,
{
    assert forall|b: Seq<DataFrame>, f: DataFrame| #[trigger] fvs(b.push(f)) == fvs(b).push(fv(f)) by { assert(fvs(b.push(f)) =~= fvs(b).push(fv(f))); }
    assert(fvs(Seq::<DataFrame>::empty()) =~= Seq::<FrameV>::empty());
}
pub proof fn lemma_single()
    ensures forall|f: FrameV| Seq::<FrameV>::empty().push(f) == #[trigger] seq![f],
{
    assert forall|f: FrameV| Seq::<FrameV>::empty().push(f) == #[trigger] seq![f] by { assert(Seq::<FrameV>::empty().push(f) =~= seq![f]); }
}
/// everything the proofs about the receivers use
pub proof fn lemma_rx_facts(req: bool, maxf: nat)
    ensures
        forall|s: Seq<u8>| (#[trigger] rx_read(s, req, maxf)) matches RxRead::Frame(f, t) ==>
            t.len() < s.len() && f.pay.len() <= maxf && f.op <= 15 && f.rsv.len() == 3 && (f.op >= 8 ==> f.fin),
        forall|b: Seq<DataFrame>, f: DataFrame| #[trigger] fvs(b.push(f)) == fvs(b).push(fv(f)),
        forall|b: Seq<DataFrame>| (#[trigger] fvs(b)).len() == b.len(),
        forall|b: Seq<DataFrame>| b.len() == 1 ==> #[trigger] fvs(b) == seq![fv(b[0])],
        fvs(Seq::<DataFrame>::empty()) == Seq::<FrameV>::empty(),
        total_pay(Seq::<FrameV>::empty()) == 0,
        forall|f: FrameV| Seq::<FrameV>::empty().push(f) == #[trigger] seq![f],
        forall|b: Seq<FrameV>, f: FrameV| #[trigger] total_pay(b.push(f)) == total_pay(b) + f.pay.len(),
        forall|v: Vec<DataFrame>| (#[trigger] cat_frames(v@)).len() <= 0x8000_0000_0000,
        forall|v: Vec<DataFrame>| total_pay(#[trigger] fvs(v@)) <= 0x8000_0000_0000 && v@.len() <= 0x8000_0000_0000,
        forall|b: Seq<DataFrame>, s: Seq<usize>| #![trigger fvs(b), seq_sum(s)] s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len())
            ==> seq_sum(s) == total_pay(fvs(b)),
{
    lemma_rx_all(req, maxf);
    lemma_fvs();
    lemma_single();
    assert forall|b: Seq<DataFrame>| b.len() == 1 implies #[trigger] fvs(b) == seq![fv(b[0])] by { assert(fvs(b) =~= seq![fv(b[0])]); }
    assert forall|b: Seq<FrameV>, f: FrameV| #[trigger] total_pay(b.push(f)) == total_pay(b) + f.pay.len() by { lemma_total_push(b, f); }
    assert forall|v: Vec<DataFrame>| (#[trigger] cat_frames(v@)).len() <= 0x8000_0000_0000 by { lemma_cat_total(v@); axiom_frames_in_memory(v); }
    assert forall|v: Vec<DataFrame>| total_pay(#[trigger] fvs(v@)) <= 0x8000_0000_0000 && v@.len() <= 0x8000_0000_0000 by { axiom_frames_in_memory(v); }
    assert forall|b: Seq<DataFrame>, s: Seq<usize>| #![trigger fvs(b), seq_sum(s)] s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i].data@.len())
            implies seq_sum(s) == total_pay(fvs(b)) by { lemma_total_sum(b, s); }
}
/// P15: the bound on what is retained is an invariant of the receiver as long as calls return without an error
pub proof fn theorem_rx_invariant(buf: Seq<FrameV>, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P15 P12
    requires rx_inv(buf, maxf, maxm), 2 <= max_frames()
    ensures
        rx_run(buf, s, req, maxf, maxm) matches RxOut::Ctrl(f, b, t) ==> rx_inv(b, maxf, maxm), //P15 P12
        rx_inv(Seq::empty(), maxf, maxm), //P15
{
    lemma_rx_read(s, req, maxf);
    if buf.len() > 0 {
        theorem_rx_retained(buf, total_pay(buf), s, req, maxf, maxm);
    } else {
        match rx_read(s, req, maxf) {
            RxRead::Bad(_) => {}
            RxRead::Frame(f, t) => {
                if f.op != 0 && !f.fin {
                    let one = seq![f];
                    assert(one.drop_last() =~= Seq::<FrameV>::empty());
                    assert(total_pay(one) == f.pay.len()) by { reveal_with_fuel(total_pay, 2); }
                    theorem_rx_retained_acc(one, f.pay.len() + frame_overhead(), t, req, maxf, maxm);
                }
            }
        }
    }
}
pub proof fn theorem_rx_retained_acc(buf: Seq<FrameV>, acc: nat, s: Seq<u8>, req: bool, maxf: nat, maxm: nat) //P15
    requires buf.len() < max_frames(), open_msg(buf), buf.len() > 0, total_pay(buf) <= acc, total_pay(buf) <= maxf + maxm,
    ensures rx_cont(buf, acc, s, req, maxf, maxm) matches RxOut::Ctrl(f, b, t) ==> rx_inv(b, maxf, maxm), //P15
{
    theorem_rx_retained(buf, acc, s, req, maxf, maxm);
}
/// P14: whether a frame is complete, and which one it is, does not change when more bytes arrive behind it
pub proof fn theorem_prefix_stable(p: Seq<u8>, x: Seq<u8>, req: bool, maxf: nat) //P14
    ensures
        d_complete(p) ==> d_complete(p + x) && d_size(p + x) == d_size(p) && d_len(p + x) == d_len(p) && d_bad(p + x) == d_bad(p), //P14
        f_complete(p) ==> f_complete(p + x) && f_total(p + x) == f_total(p) && frame_at(p + x) == frame_at(p)
            && (p + x).skip(f_total(p)) == p.skip(f_total(p)) + x, //P14
        rx_read(p, req, maxf) matches RxRead::Frame(f, t) ==> rx_read(p + x, req, maxf) == RxRead::Frame(f, t + x), //P14
        rx_read(p, req, maxf) matches RxRead::Bad(e) ==> (!(e is NoData) ==> rx_read(p + x, req, maxf) == RxRead::Bad(e)), //P14
{
    let s = p + x;
    if d_complete(p) {
        assert(s[0] == p[0] && s[1] == p[1]);
        if d_code(p) == 126 { assert(s.subrange(2, 4) =~= p.subrange(2, 4)); }
        if d_code(p) == 127 { assert(s.subrange(2, 10) =~= p.subrange(2, 10)); }
        if d_masked(p) { assert(d_mask(s) =~= d_mask(p)); }
        if f_complete(p) {
            assert(s.subrange(d_size(p), f_total(p)) =~= p.subrange(d_size(p), f_total(p)));
            assert(s.skip(f_total(p)) =~= p.skip(f_total(p)) + x);
        }
    }
}
/// the frames of a byte stream, as many as are complete
pub open spec fn frames_of(s: Seq<u8>, req: bool, maxf: nat) -> Seq<FrameV> decreases s.len() {
    match rx_read(s, req, maxf) {
        RxRead::Frame(f, t) => if t.len() < s.len() { seq![f] + frames_of(t, req, maxf) } else { seq![f] },
        RxRead::Bad(_) => Seq::empty(),
    }
}
pub open spec fn rest_of(s: Seq<u8>, req: bool, maxf: nat) -> Seq<u8> decreases s.len() {
    match rx_read(s, req, maxf) {
        RxRead::Frame(f, t) => if t.len() < s.len() { rest_of(t, req, maxf) } else { t },
        RxRead::Bad(_) => s,
    }
}
/// P14: feeding a stream in two chunks yields the frames of the whole (by induction: in any number of chunks)
pub proof fn theorem_chunking(p: Seq<u8>, x: Seq<u8>, req: bool, maxf: nat) //P14
    ensures frames_of(p + x, req, maxf) == frames_of(p, req, maxf) + frames_of(rest_of(p, req, maxf) + x, req, maxf), //P14
        rest_of(p + x, req, maxf) == rest_of(rest_of(p, req, maxf) + x, req, maxf), //P14
    decreases p.len()
{
    theorem_prefix_stable(p, x, req, maxf);
    lemma_rx_read(p, req, maxf);
    lemma_rx_read(p + x, req, maxf);
    match rx_read(p, req, maxf) {
        RxRead::Frame(f, t) => {
            theorem_chunking(t, x, req, maxf);
            assert(frames_of(p + x, req, maxf) =~= frames_of(p, req, maxf) + frames_of(rest_of(p, req, maxf) + x, req, maxf));
        }
        RxRead::Bad(_) => {
            assert(frames_of(p + x, req, maxf) =~= frames_of(p, req, maxf) + frames_of(rest_of(p, req, maxf) + x, req, maxf));
        }
    }
}
