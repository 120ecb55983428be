// Sequences of table-builder calls with arbitrary arguments. Included by the model-checking crate (arguments are
// non-deterministic) and by the native program (arguments come from a counterexample).
type T = PoseidonHashTable<Fr>;
#[derive(Clone, Copy)]
struct Row {
    inp: [u128; 2],
    ctrl: u64,
    domain: Option<u128>,
    check: Option<u128>,
}
/// an empty table with room, so that no vector has to grow
fn table() -> T {
    let mut t = T::default();
    t.inputs = Vec::with_capacity(8);
    t.controls = Vec::with_capacity(8);
    t.domain = Vec::with_capacity(8);
    t.checks = Vec::with_capacity(8);
    t
}
fn el(v: u128) -> Fr {
    element(v)
}
fn inputs() -> [u128; 2] {
    [any_u128(), any_u128()]
}
fn fixed<const K: usize>(t: &mut T, want: &mut Vec<Row>) {
    let mut src = [([el(0); 2], el(0), None); K];
    for k in 0..K {
        let (i, d): ([u128; 2], u128) = (inputs(), any_u128());
        let c: Option<u128> = if k % 2 == 0 { Some(any_u128()) } else { None };
        src[k] = ([el(i[0]), el(i[1])], el(d), c.map(el));
        want.push(Row { inp: i, ctrl: 0, domain: Some(d), check: c });
    }
    t.fixed_inputs(&src);
}
/// rows without control and domain
fn bare<const K: usize>(t: &mut T, want: &mut Vec<Row>) {
    let mut src = [[el(0); 2]; K];
    for k in 0..K {
        let i = inputs();
        src[k] = [el(i[0]), el(i[1])];
        want.push(Row { inp: i, ctrl: 0, domain: None, check: None });
    }
    #[allow(deprecated)]
    t.constant_inputs(&src);
}
/// rows with a digest only
fn known<const K: usize>(t: &mut T, want: &mut Vec<Row>) {
    let mut src = [(el(0), el(0), el(0)); K];
    for k in 0..K {
        let (i, c) = (inputs(), any_u128());
        src[k] = (el(i[0]), el(i[1]), el(c));
        want.push(Row { inp: i, ctrl: 0, domain: None, check: Some(c) });
    }
    #[allow(deprecated)]
    t.constant_inputs_with_check(&src);
}
/// true: the rows fit the count
fn fits(rows: usize, start: u64, step: usize) -> bool {
    rows == 1 || start as u128 > (rows as u128 - 1) * step as u128
}
fn stream<const K: usize>(t: &mut T, want: &mut Vec<Row>, long: bool, plain: bool) {
    let (start, step): (u64, usize) = (any_u64(), any_u64() as usize);
    assume(step != 0);
    assume(fits(K, start, step) != long);
    let mut src = [[el(0); 2]; K];
    let check: Option<u128> = if plain { None } else { any_option() };
    for k in 0..K {
        let i = inputs();
        src[k] = [el(i[0]), el(i[1])];
        let ctrl = if long { 0 } else { (start as u128 - k as u128 * step as u128) as u64 };
        want.push(Row { inp: i, ctrl, domain: None, check: if k + 1 == K { check } else { None } });
    }
    let t2 = &mut *t;
    let mut call = move || {
        if plain {
            t2.stream_inputs(&src, start, step);
        } else {
            t2.stream_inputs_with_check(&src, check.map(el), start, step);
        }
    };
    if long {
        rejected(call);
    } else {
        call();
        // the same controls in a vector whose length the model checker knows
        claim!(t.controls.len() == want.len(), "one control per row");
        let mut c = Vec::with_capacity(8);
        for k in 0..want.len() {
            c.push(t.controls[k]);
        }
        std::mem::forget(std::mem::replace(&mut t.controls, c));
    }
}
fn aligned(t: &T, want: &[Row]) {
    let n = want.len();
    claim!(t.inputs.len() == n && t.table_size() == n, "one row per input");
    claim!(t.controls.len() <= n, "no control beyond the rows");
    claim!(t.domain.len() <= n && t.checks.len() <= n, "no domain or digest beyond the rows");
    let mut k = 0;
    while k < n {
        let w = &want[k];
        claim!(t.inputs[k][0] == el(w.inp[0]) && t.inputs[k][1] == el(w.inp[1]), "inputs of the row");
        // a row without control has control zero
        claim!(t.controls.get(k).copied().unwrap_or(0) == w.ctrl, "control of the row");
        claim!(t.domain.get(k).copied().flatten().unwrap_or(el(0)) == el(w.domain.unwrap_or(0)), "domain of the row");
        claim!(t.checks.get(k).copied().flatten() == w.check.map(el), "expected digest of the row");
        k += 1;
    }
}
fn too_long<const K: usize>() {
    let mut t = table();
    let mut want = Vec::with_capacity(8);
    stream::<K>(&mut t, &mut want, true, false);
    claim!(t.inputs.is_empty() && t.controls.is_empty(), "stream longer than its count is recorded");
}
macro_rules! call {
    ($t:ident $w:ident fixed $k:literal) => { fixed::<$k>(&mut $t, &mut $w) };
    ($t:ident $w:ident bare $k:literal) => { bare::<$k>(&mut $t, &mut $w) };
    ($t:ident $w:ident known $k:literal) => { known::<$k>(&mut $t, &mut $w) };
    ($t:ident $w:ident stream $k:literal) => { stream::<$k>(&mut $t, &mut $w, false, false) };
    ($t:ident $w:ident plain $k:literal) => { stream::<$k>(&mut $t, &mut $w, false, true) };
}
/// every sequence examined; `$each` is given a name and a body
macro_rules! sequences {
    ($each:ident) => {
        $each! { fixed1: fixed 1 }
        $each! { fixed2: fixed 2 }
        $each! { stream1: stream 1 }
        $each! { stream2: stream 2 }
        $each! { stream3: stream 3 }
        $each! { plain1: plain 1 }
        $each! { plain2: plain 2 }
        $each! { stream4: stream 4 }
        $each! { fixed3: fixed 3 }
        $each! { bare2: bare 2 }
        $each! { known2: known 2 }
        $each! { bare2_fixed1: bare 2, fixed 1 }
        $each! { bare1_known1: bare 1, known 1 }
        $each! { fixed1_bare2: fixed 1, bare 2 }
        $each! { fixed1_known2: fixed 1, known 2 }
        $each! { known1_stream2: known 1, stream 2 }
        $each! { known2_fixed1: known 2, fixed 1 }
        $each! { stream2_bare1: stream 2, bare 1 }
        $each! { stream2_known2: stream 2, known 2 }
        $each! { bare1_known1_fixed1: bare 1, known 1, fixed 1 }
        $each! { bare2_fixed1_stream2: bare 2, fixed 1, stream 2 }
        $each! { stream2_bare1_fixed1: stream 2, bare 1, fixed 1 }
        $each! { known1_stream2_known1: known 1, stream 2, known 1 }
        $each! { fixed1_known1_stream2: fixed 1, known 1, stream 2 }
        $each! { fixed1_fixed1: fixed 1, fixed 1 }
        $each! { fixed1_fixed2: fixed 1, fixed 2 }
        $each! { fixed1_stream1: fixed 1, stream 1 }
        $each! { fixed1_stream2: fixed 1, stream 2 }
        $each! { fixed1_stream3: fixed 1, stream 3 }
        $each! { fixed1_plain2: fixed 1, plain 2 }
        $each! { fixed2_fixed1: fixed 2, fixed 1 }
        $each! { fixed2_fixed2: fixed 2, fixed 2 }
        $each! { fixed2_stream1: fixed 2, stream 1 }
        $each! { fixed2_stream2: fixed 2, stream 2 }
        $each! { fixed2_stream3: fixed 2, stream 3 }
        $each! { fixed2_plain2: fixed 2, plain 2 }
        $each! { stream1_fixed1: stream 1, fixed 1 }
        $each! { stream1_fixed2: stream 1, fixed 2 }
        $each! { stream1_stream1: stream 1, stream 1 }
        $each! { stream1_stream2: stream 1, stream 2 }
        $each! { stream1_stream3: stream 1, stream 3 }
        $each! { stream1_plain2: stream 1, plain 2 }
        $each! { stream2_fixed1: stream 2, fixed 1 }
        $each! { stream2_fixed2: stream 2, fixed 2 }
        $each! { stream2_stream1: stream 2, stream 1 }
        $each! { stream2_stream2: stream 2, stream 2 }
        $each! { stream2_stream3: stream 2, stream 3 }
        $each! { stream2_plain2: stream 2, plain 2 }
        $each! { stream3_fixed1: stream 3, fixed 1 }
        $each! { stream3_fixed2: stream 3, fixed 2 }
        $each! { stream3_stream1: stream 3, stream 1 }
        $each! { stream3_stream2: stream 3, stream 2 }
        $each! { stream3_stream3: stream 3, stream 3 }
        $each! { stream3_plain2: stream 3, plain 2 }
        $each! { plain2_fixed1: plain 2, fixed 1 }
        $each! { plain2_fixed2: plain 2, fixed 2 }
        $each! { plain2_stream1: plain 2, stream 1 }
        $each! { plain2_stream2: plain 2, stream 2 }
        $each! { plain2_stream3: plain 2, stream 3 }
        $each! { plain2_plain2: plain 2, plain 2 }
        $each! { fixed1_fixed2_fixed1: fixed 1, fixed 2, fixed 1 }
        $each! { fixed1_fixed2_stream3: fixed 1, fixed 2, stream 3 }
        $each! { fixed1_fixed2_plain2: fixed 1, fixed 2, plain 2 }
        $each! { fixed1_plain1_fixed1: fixed 1, plain 1, fixed 1 }
        $each! { fixed1_plain1_stream3: fixed 1, plain 1, stream 3 }
        $each! { fixed1_plain1_plain2: fixed 1, plain 1, plain 2 }
        $each! { fixed1_stream2_fixed1: fixed 1, stream 2, fixed 1 }
        $each! { fixed1_stream2_stream3: fixed 1, stream 2, stream 3 }
        $each! { fixed1_stream2_plain2: fixed 1, stream 2, plain 2 }
        $each! { stream2_fixed2_fixed1: stream 2, fixed 2, fixed 1 }
        $each! { stream2_fixed2_stream3: stream 2, fixed 2, stream 3 }
        $each! { stream2_fixed2_plain2: stream 2, fixed 2, plain 2 }
        $each! { stream2_plain1_fixed1: stream 2, plain 1, fixed 1 }
        $each! { stream2_plain1_stream3: stream 2, plain 1, stream 3 }
        $each! { stream2_plain1_plain2: stream 2, plain 1, plain 2 }
        $each! { stream2_stream2_fixed1: stream 2, stream 2, fixed 1 }
        $each! { stream2_stream2_stream3: stream 2, stream 2, stream 3 }
        $each! { stream2_stream2_plain2: stream 2, stream 2, plain 2 }
    };
}
