// ---------------------------------------------------------------- identifiers
spec fn alpha() -> Txt { "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$"@ }

/// position of a character in the alphabet
spec fn place(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 }
    else if 'a' <= c <= 'z' { c as int - 'a' as int + 36 } else if c == '_' { 62 } else if c == '$' { 63 } else { -1 }
}

proof fn l_place(i: int)
    requires 0 <= i < 64,
    ensures alpha().len() == 64, place(alpha()[i]) == i,
{
    reveal_strlit("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$");
    if i == 0 { }
    else if i == 1 { }
    else if i == 2 { }
    else if i == 3 { }
    else if i == 4 { }
    else if i == 5 { }
    else if i == 6 { }
    else if i == 7 { }
    else if i == 8 { }
    else if i == 9 { }
    else if i == 10 { }
    else if i == 11 { }
    else if i == 12 { }
    else if i == 13 { }
    else if i == 14 { }
    else if i == 15 { }
    else if i == 16 { }
    else if i == 17 { }
    else if i == 18 { }
    else if i == 19 { }
    else if i == 20 { }
    else if i == 21 { }
    else if i == 22 { }
    else if i == 23 { }
    else if i == 24 { }
    else if i == 25 { }
    else if i == 26 { }
    else if i == 27 { }
    else if i == 28 { }
    else if i == 29 { }
    else if i == 30 { }
    else if i == 31 { }
    else if i == 32 { }
    else if i == 33 { }
    else if i == 34 { }
    else if i == 35 { }
    else if i == 36 { }
    else if i == 37 { }
    else if i == 38 { }
    else if i == 39 { }
    else if i == 40 { }
    else if i == 41 { }
    else if i == 42 { }
    else if i == 43 { }
    else if i == 44 { }
    else if i == 45 { }
    else if i == 46 { }
    else if i == 47 { }
    else if i == 48 { }
    else if i == 49 { }
    else if i == 50 { }
    else if i == 51 { }
    else if i == 52 { }
    else if i == 53 { }
    else if i == 54 { }
    else if i == 55 { }
    else if i == 56 { }
    else if i == 57 { }
    else if i == 58 { }
    else if i == 59 { }
    else if i == 60 { }
    else if i == 61 { }
    else if i == 62 { }
    else { }
}

/// the digit's character is found again
proof fn l_find(i: int)
    requires 0 <= i < 64,
    ensures str_has(alpha(), alpha()[i]), str_find(alpha(), alpha()[i]) == Some(i as nat), seq_nth(alpha(), i as nat) == Some(alpha()[i]),
{
    let a = alpha();
    let c = a[i];
    l_place(i);
    assert(a.contains(c));
    a.index_of_first_ensures(c);
    let j = a.index_of_first(c)->Some_0;
    assert(a[j] == c);
    l_place(j);
}

proof fn l_digits(b: Seq<nat>)
    requires b.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] b[i] < 256,
    ensures forall|i: int| 0 <= i < 22 ==> #[trigger] digits(b)[i] < 64,
{
    assert forall|i: int| 0 <= i < 22 implies #[trigger] digits(b)[i] < 64 by {
        if i >= 2 {
            let g = 1 + 3 * ((i - 2) / 4);
            assert(0 <= g && g + 2 < 16);
            let v = b[g] * 65536 + b[g + 1] * 256 + b[g + 2];
            assert(v < 16777216);
        } else { assert(b[0] < 256); }
    }
}

/// the characters of the digits
spec fn chars_of(d: Seq<nat>) -> Txt { Seq::new(d.len(), |i: int| alpha()[d[i] as int]) }

proof fn l_chars(d: Seq<nat>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 64,
    ensures
        forall|f: spec_fn(nat) -> char| (forall|n: nat| #[trigger] f(n) == seq_nth(alpha(), n).unwrap()) ==> #[trigger] seq_map(d, f) == chars_of(d),
        forall|i: int| 0 <= i < d.len() ==> str_has(alpha(), #[trigger] chars_of(d)[i]),
{
    assert forall|f: spec_fn(nat) -> char| (forall|n: nat| #[trigger] f(n) == seq_nth(alpha(), n).unwrap()) implies #[trigger] seq_map(d, f) == chars_of(d) by {
        assert forall|i: int| 0 <= i < d.len() implies f(d[i]) == chars_of(d)[i] by { l_find(d[i] as int); }
        assert(seq_map(d, f) =~= chars_of(d));
    }
    assert forall|i: int| 0 <= i < d.len() implies str_has(alpha(), #[trigger] chars_of(d)[i]) by { l_find(d[i] as int); }
}

proof fn l_unchars(d: Seq<nat>, g: spec_fn(char) -> Option<nat>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 64, forall|c: char| #[trigger] g(c) == str_find(alpha(), c),
    ensures seq_filter_map(chars_of(d), g) == d,
    decreases d.len(),
{
    if d.len() > 0 {
        let e = d.skip(1);
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] < 64 by { assert(e[i] == d[i + 1]); }
        l_unchars(e, g);
        assert(chars_of(d).skip(1) =~= chars_of(e));
        l_find(d[0] as int);
        assert(g(chars_of(d)[0]) == Some(d[0]));
        assert(seq![d[0]] + e =~= d);
    } else { assert(d =~= Seq::<nat>::empty()); }
}

proof fn l_unchars_all(d: Seq<nat>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 64,
    ensures forall|g: spec_fn(char) -> Option<nat>| (forall|c: char| #[trigger] g(c) == str_find(alpha(), c)) ==> #[trigger] seq_filter_map(chars_of(d), g) == d,
        forall|h: spec_fn(nat) -> nat| (forall|n: nat| #[trigger] h(n) == cast_u8(n)) ==> #[trigger] seq_map(d, h) == d,
{
    assert forall|g: spec_fn(char) -> Option<nat>| (forall|c: char| #[trigger] g(c) == str_find(alpha(), c)) implies #[trigger] seq_filter_map(chars_of(d), g) == d by { l_unchars(d, g); }
    assert forall|h: spec_fn(nat) -> nat| (forall|n: nat| #[trigger] h(n) == cast_u8(n)) implies #[trigger] seq_map(d, h) == d by {
        assert forall|i: int| 0 <= i < d.len() implies h(d[i]) == d[i] by { assert(d[i] < 64); }
        assert(seq_map(d, h) =~= d);
    }
}

proof fn l_take22(d: Seq<nat>, k: Txt)
    requires d.len() == 22, forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 64,
    ensures forall|p: spec_fn(char) -> bool| (forall|c: char| #[trigger] p(c) == str_has(alpha(), c)) ==> #[trigger] take_while(lit(chars_of(d), k), 22, Some(22), p) == Some((chars_of(d), k)),
{
    assert forall|p: spec_fn(char) -> bool| (forall|c: char| #[trigger] p(c) == str_has(alpha(), c)) implies #[trigger] take_while(lit(chars_of(d), k), 22, Some(22), p) == Some((chars_of(d), k)) by {
        assert forall|i: int| 0 <= i < 22 implies #[trigger] p(chars_of(d)[i]) by { l_find(d[i] as int); }
        l_take_while(chars_of(d), k, 22, Some(22), p);
    }
}

/// the printed form is the canonical compression
proof fn l_guid_form(x: IfcGloballyUniqueId, k: Txt)
    ensures sh_IfcGloballyUniqueId(x, k) == lit("'"@, lit(chars_of(digits(uuid_bytes(x.0))), lit("'"@, k))),
{
    reveal(sh_IfcGloballyUniqueId);
    let b = uuid_bytes(x.0);
    ax_uuid(x.0);
    ax_b64(b);
    l_digits(b);
    l_chars(digits(b));
}

proof fn l_guid(x: IfcGloballyUniqueId, k: Txt)
    ensures ps_IfcGloballyUniqueId(sh_IfcGloballyUniqueId(x, k)) == Some((x, k)),
{
    reveal(ps_IfcGloballyUniqueId);
    let b = uuid_bytes(x.0);
    let d = digits(b);
    ax_uuid(x.0);
    ax_b64(b);
    l_digits(b);
    l_chars(d);
    l_unchars_all(d);
    l_guid_form(x, k);
    let t1 = lit("'"@, k);
    l_take22(d, t1);
    let t2 = lit(chars_of(d), t1);
    l_lit("'"@, t2);
    l_lit("'"@, k);
}

/// distinct identifiers have distinct compressed forms
proof fn l_guid_inj(x: IfcGloballyUniqueId, y: IfcGloballyUniqueId, k: Txt)
    requires sh_IfcGloballyUniqueId(x, k) == sh_IfcGloballyUniqueId(y, k),
    ensures x == y,
{
    l_guid(x, k);
    l_guid(y, k);
}

proof fn l_filter(m: Txt, g: spec_fn(char) -> Option<nat>)
    requires forall|i: int| 0 <= i < m.len() ==> str_has(alpha(), #[trigger] m[i]), forall|c: char| #[trigger] g(c) == str_find(alpha(), c),
    ensures seq_filter_map(m, g).len() == m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] seq_filter_map(m, g)[i] < 64,
    decreases m.len(),
{
    if m.len() > 0 {
        let e = m.skip(1);
        assert forall|i: int| 0 <= i < e.len() implies str_has(alpha(), #[trigger] e[i]) by { assert(e[i] == m[i + 1]); }
        l_filter(e, g);
        let a = alpha();
        l_place(0);
        assert(a.contains(m[0]));
        a.index_of_first_ensures(m[0]);
        let n = str_find(a, m[0])->Some_0;
        assert(g(m[0]) == Some(n));
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] seq_filter_map(m, g)[i] < 64 by { if i > 0 { assert(seq_filter_map(m, g)[i] == seq_filter_map(e, g)[i - 1]); } }
    }
}

/// the conversion of 22 digits to 16 bytes can't fail
proof fn l_guid_decode(m: Txt, g: spec_fn(char) -> Option<nat>, h: spec_fn(nat) -> nat)
    requires m.len() == 22, forall|i: int| 0 <= i < m.len() ==> str_has(alpha(), #[trigger] m[i]),
        forall|c: char| #[trigger] g(c) == str_find(alpha(), c), forall|n: nat| #[trigger] h(n) == cast_u8(n),
    ensures b64_dec(seq_map(seq_filter_map(m, g), h)).len() == 16,
{
    l_filter(m, g);
    let d = seq_filter_map(m, g);
    assert forall|i: int| 0 <= i < d.len() implies h(d[i]) == d[i] by { assert(d[i] < 64); }
    assert(seq_map(d, h) =~= d);
    ax_b64_len(d);
}

proof fn l_guid_decode_all()
    ensures forall|m: Txt, g: spec_fn(char) -> Option<nat>, h: spec_fn(nat) -> nat| #![trigger b64_dec(seq_map(seq_filter_map(m, g), h))]
        m.len() == 22 && (forall|i: int| 0 <= i < m.len() ==> str_has(alpha(), #[trigger] m[i])) && (forall|c: char| #[trigger] g(c) == str_find(alpha(), c)) && (forall|n: nat| #[trigger] h(n) == cast_u8(n))
            ==> b64_dec(seq_map(seq_filter_map(m, g), h)).len() == 16,
{
    assert forall|m: Txt, g: spec_fn(char) -> Option<nat>, h: spec_fn(nat) -> nat|
        m.len() == 22 && (forall|i: int| 0 <= i < m.len() ==> str_has(alpha(), #[trigger] m[i])) && (forall|c: char| #[trigger] g(c) == str_find(alpha(), c)) && (forall|n: nat| #[trigger] h(n) == cast_u8(n))
            implies #[trigger] b64_dec(seq_map(seq_filter_map(m, g), h)).len() == 16 by { l_guid_decode(m, g, h); }
}

/// each digit is an index of the alphabet
proof fn l_guid_encode(u: Uuid)
    ensures b64_enc(uuid_bytes(u)).len() == 22, forall|i: int| 0 <= i < 22 ==> seq_nth(alpha(), #[trigger] b64_enc(uuid_bytes(u))[i]) is Some,
{
    let b = uuid_bytes(u);
    ax_uuid(u);
    ax_b64(b);
    l_digits(b);
    assert forall|i: int| 0 <= i < 22 implies seq_nth(alpha(), #[trigger] b64_enc(b)[i]) is Some by {
        assert(digits(b)[i] < 64);
        l_find(digits(b)[i] as int);
    }
}
