// ---------------------------------------------------------------- texts
type Txt = Seq<char>;

#[verifier::opaque]
spec fn lit(s: Txt, k: Txt) -> Txt { s + k }

/// winnow: a literal parser
#[verifier::opaque]
spec fn p_lit(s: Txt, t: Txt) -> Option<Txt> {
    if t.len() >= s.len() && t.subrange(0, s.len() as int) =~= s { Some(t.skip(s.len() as int)) } else { None }
}

/// a literal is read back and leaves what follows
proof fn l_lit(s: Txt, k: Txt)
    ensures p_lit(s, lit(s, k)) == Some(k), lit(s, k).len() == s.len() + k.len(),
        s.len() > 0 ==> lit(s, k)[0] == s[0],
{
    reveal(lit); reveal(p_lit);
    assert(lit(s, k).subrange(0, s.len() as int) =~= s);
    assert(lit(s, k).skip(s.len() as int) =~= k);
}

/// first character
proof fn l_head(s: Txt, k: Txt)
    ensures lit(s, k).len() == s.len() + k.len(), s.len() > 0 ==> lit(s, k)[0] == s[0],
{ reveal(lit); }

/// a literal which differs from the text at position i doesn't match
proof fn l_no(s: Txt, t: Txt, i: int)
    ensures (0 <= i < s.len() && (i < t.len() ==> s[i] != t[i])) ==> p_lit(s, t) is None,
{
    reveal(p_lit);
    if 0 <= i < s.len() && i < t.len() && s[i] != t[i] && t.len() >= s.len() {
        assert(t.subrange(0, s.len() as int)[i] == t[i]);
    }
}

/// ... because the printed literal a differs from it
proof fn l_no_lit(s: Txt, a: Txt, k: Txt, i: int)
    ensures (0 <= i < s.len() && i < a.len() && s[i] != a[i]) ==> p_lit(s, lit(a, k)) is None,
{
    reveal(lit);
    l_no(s, lit(a, k), i);
}

/// ... because the text after the printed literal a differs from it
proof fn l_no_next(s: Txt, a: Txt, k: Txt)
    ensures (a.len() < s.len() && (k.len() > 0 ==> k[0] != s[a.len() as int])) ==> p_lit(s, lit(a, k)) is None,
{
    reveal(lit);
    l_no(s, lit(a, k), a.len() as int);
}

proof fn l_lit_len(s: Txt, t: Txt)
    ensures p_lit(s, t) matches Some(r) ==> r.len() + s.len() == t.len(),
{ reveal(p_lit); }

proof fn l_empty(k: Txt)
    ensures lit(Seq::<char>::empty(), k) == k,
{ reveal(lit); assert(lit(Seq::<char>::empty(), k) =~= k); }

proof fn l_assoc(a: Txt, b: Txt, k: Txt)
    ensures lit(a + b, k) == lit(a, lit(b, k)),
{ reveal(lit); assert(lit(a + b, k) =~= lit(a, lit(b, k))); }

/// the text starts with the keyword s and an opening bracket
spec fn kw_is(t: Txt, s: Txt) -> bool { p_lit(s, t) matches Some(r) && p_lit("("@, r) is Some }

proof fn l_kw_no(t: Txt, a: Txt, b: Txt, i: int)
    ensures (kw_is(t, a) && 0 <= i <= a.len() && i <= b.len() &&
        (if i < a.len() { a[i] } else { '(' }) != (if i < b.len() { b[i] } else { '(' })) ==> !kw_is(t, b),
{
    reveal(p_lit);
    reveal_strlit("(");
    if kw_is(t, a) && kw_is(t, b) && 0 <= i <= a.len() && i <= b.len() {
        assert(i < a.len() ==> t.subrange(0, a.len() as int)[i] == t[i]);
        assert(i < b.len() ==> t.subrange(0, b.len() as int)[i] == t[i]);
        let ra = t.skip(a.len() as int);
        let rb = t.skip(b.len() as int);
        assert(ra.subrange(0, 1)[0] == t[a.len() as int]);
        assert(rb.subrange(0, 1)[0] == t[b.len() as int]);
    }
}

/// char::is_alphanumeric; only its values on ASCII are used
uninterp spec fn ch_alnum(c: char) -> bool;
#[verifier::external_body]
proof fn ax_alnum(c: char)
    ensures c as u32 <= 127 ==> (ch_alnum(c) <==> (('0' <= c <= '9') || ('a' <= c <= 'z') || ('A' <= c <= 'Z'))),
{ }

/// winnow::ascii::multispace1: space, tab, line feed, carriage return
spec fn is_ms(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }

spec fn span(t: Txt, f: spec_fn(char) -> bool) -> nat
    decreases t.len(),
{
    if t.len() > 0 && f(t[0]) { 1 + span(t.skip(1), f) } else { 0 }
}

proof fn l_span_len(t: Txt, f: spec_fn(char) -> bool)
    ensures span(t, f) <= t.len(),
    decreases t.len(),
{ if t.len() > 0 && f(t[0]) { l_span_len(t.skip(1), f); } }

proof fn l_span(x: Txt, k: Txt, f: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] f(x[i]),
        k.len() > 0 ==> !f(k[0]),
    ensures span(lit(x, k), f) == x.len(),
    decreases x.len(),
{
    reveal(lit);
    if x.len() > 0 {
        assert(f(x[0]));
        assert(lit(x, k).skip(1) =~= lit(x.skip(1), k));
        assert forall|i: int| 0 <= i < x.skip(1).len() implies #[trigger] f(x.skip(1)[i]) by { assert(f(x[i + 1])); }
        l_span(x.skip(1), k, f);
    } else { assert(lit(x, k) =~= k); }
}

proof fn l_span_ge(x: Txt, k: Txt, f: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] f(x[i]),
    ensures span(lit(x, k), f) >= x.len(),
    decreases x.len(),
{
    reveal(lit);
    if x.len() > 0 {
        assert(f(x[0]));
        assert(lit(x, k).skip(1) =~= lit(x.skip(1), k));
        assert forall|i: int| 0 <= i < x.skip(1).len() implies #[trigger] f(x.skip(1)[i]) by { assert(f(x[i + 1])); }
        l_span_ge(x.skip(1), k, f);
    }
}

/// winnow::token::take_while(lo..=hi, f)
spec fn take_while(t: Txt, lo: nat, hi: Option<nat>, f: spec_fn(char) -> bool) -> Option<(Txt, Txt)> {
    let n0 = span(t, f);
    let n = match hi { Some(h) => if n0 > h { h } else { n0 }, None => n0 };
    if n < lo { None } else { Some((t.subrange(0, n as int), t.skip(n as int))) }
}

proof fn l_take_while(x: Txt, k: Txt, lo: nat, hi: Option<nat>, f: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] f(x[i]),
        lo <= x.len(),
        (k.len() > 0 ==> !f(k[0])) && (hi matches Some(h) ==> x.len() <= h) || hi == Some(x.len()),
    ensures take_while(lit(x, k), lo, hi, f) == Some((x, k)),
{
    reveal(lit);
    if hi == Some(x.len()) { l_span_ge(x, k, f); } else { l_span(x, k, f); }
    assert(lit(x, k).subrange(0, x.len() as int) =~= x);
    assert(lit(x, k).skip(x.len() as int) =~= k);
}

proof fn l_take_while_len(t: Txt, lo: nat, hi: Option<nat>, f: spec_fn(char) -> bool)
    ensures take_while(t, lo, hi, f) matches Some((x, r)) ==> x.len() + r.len() == t.len() && x.len() >= lo,
{ l_span_len(t, f); }

/// what take_while returns satisfies the predicate
proof fn l_take_all()
    ensures forall|t: Txt, lo: nat, hi: Option<nat>, f: spec_fn(char) -> bool| #![trigger take_while(t, lo, hi, f)]
        take_while(t, lo, hi, f) matches Some((x, r)) ==> x.len() >= lo && (hi matches Some(h) ==> lo <= h ==> x.len() <= h) && (forall|i: int| 0 <= i < x.len() ==> f(#[trigger] x[i])),
{
    assert forall|t: Txt, lo: nat, hi: Option<nat>, f: spec_fn(char) -> bool| take_while(t, lo, hi, f) is Some implies
        (take_while(t, lo, hi, f) matches Some((x, r)) ==> x.len() >= lo && (hi matches Some(h) ==> lo <= h ==> x.len() <= h) && (forall|i: int| 0 <= i < x.len() ==> f(#[trigger] x[i]))) by {
        l_span_len(t, f);
        l_span_all(t, f);
    }
}
proof fn l_span_all(t: Txt, f: spec_fn(char) -> bool)
    ensures forall|i: int| 0 <= i < span(t, f) ==> f(#[trigger] t[i]),
    decreases t.len(),
{
    l_span_len(t, f);
    if t.len() > 0 && f(t[0]) {
        l_span_all(t.skip(1), f);
        assert forall|i: int| 0 <= i < span(t, f) implies f(#[trigger] t[i]) by { if i > 0 { assert(f(t.skip(1)[i - 1])); assert(t.skip(1)[i - 1] == t[i]); } }
    }
}

spec fn p_multispace1(t: Txt) -> Option<(Txt, Txt)> { take_while(t, 1, None, |c: char| is_ms(c)) }
spec fn p_multispace0(t: Txt) -> Option<(Txt, Txt)> { take_while(t, 0, None, |c: char| is_ms(c)) }

spec fn p_any(t: Txt) -> Option<(char, Txt)> { if t.len() > 0 { Some((t[0], t.skip(1))) } else { None } }

spec fn taken(t: Txt, r: Txt) -> Txt { t.subrange(0, t.len() - r.len()) }

// ---------------------------------------------------------------- std: text functions
spec fn str_has(s: Txt, c: char) -> bool { s.contains(c) }
spec fn seq_nth(s: Txt, i: nat) -> Option<char> { if i < s.len() { Some(s[i as int]) } else { None } }
spec fn str_find(s: Txt, c: char) -> Option<nat> {
    if s.contains(c) { Some(s.index_of_first(c)->Some_0 as nat) } else { None }
}
spec fn cast_u8(n: nat) -> nat { n % 256 }
spec fn seq_filter<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T> { s.filter(f) }
spec fn seq_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U) -> Seq<U> { s.map_values(f) }
spec fn seq_filter_map<T, U>(s: Seq<T>, f: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match f(s[0]) { Some(u) => seq![u] + seq_filter_map(s.skip(1), f), None => seq_filter_map(s.skip(1), f) }
    }
}
/// str::replace with a non-empty pattern: leftmost, non-overlapping
spec fn str_replace(s: Txt, p: Txt, w: Txt) -> Txt
    decreases s.len(),
{
    if p.len() == 0 || s.len() < p.len() { s }
    else if s.subrange(0, p.len() as int) =~= p { w + str_replace(s.skip(p.len() as int), p, w) }
    else { seq![s[0]] + str_replace(s.skip(1), p, w) }
}
/// char::is_whitespace
uninterp spec fn is_uspace(c: char) -> bool;
spec fn trim_l(s: Txt) -> Txt
    decreases s.len(),
{ if s.len() > 0 && is_uspace(s[0]) { trim_l(s.skip(1)) } else { s } }
spec fn trim_r(s: Txt) -> Txt
    decreases s.len(),
{ if s.len() > 0 && is_uspace(s.last()) { trim_r(s.drop_last()) } else { s } }
/// str::trim
spec fn str_trim(s: Txt) -> Txt { trim_r(trim_l(s)) }
#[verifier::external_body]
proof fn ax_uspace(c: char)
    ensures is_ms(c) ==> is_uspace(c),
{ }

// ---------------------------------------------------------------- std / winnow: numbers
spec fn is_dig(c: char) -> bool { '0' <= c <= '9' }
uninterp spec fn dec_nat(n: nat) -> Txt;
uninterp spec fn dec_int(n: int) -> Txt;
/// winnow::ascii::dec_uint / dec_int on usize / i64 / i32 ...
/// a repetition with a least number of elements
spec fn at_least<A>(r: Option<(Seq<A>, Txt)>, n: nat) -> Option<(Seq<A>, Txt)> {
    match r { Some((v, t)) => if v.len() >= n { Some((v, t)) } else { None }, None => None }
}
uninterp spec fn p_uint(t: Txt, max: nat) -> Option<(nat, Txt)>;
uninterp spec fn p_int(t: Txt, max: nat) -> Option<(int, Txt)>;
spec fn MAXU() -> nat { 0xffff_ffff_ffff_ffff }
spec fn MAXI() -> nat { 0x7fff_ffff_ffff_ffff }
#[verifier::external_body]
proof fn ax_uint(n: nat, k: Txt, max: nat)
    requires n <= max, k.len() > 0 ==> !is_dig(k[0]),
    ensures p_uint(lit(dec_nat(n), k), max) == Some((n, k)),
{ }
#[verifier::external_body]
proof fn ax_int(n: int, k: Txt, max: nat)
    requires -max - 1 <= n <= max, k.len() > 0 ==> !is_dig(k[0]),
    ensures p_int(lit(dec_int(n), k), max) == Some((n, k)),
{ }
#[verifier::external_body]
proof fn ax_dec(n: nat, i: int)
    ensures dec_nat(n).len() > 0, is_dig(dec_nat(n)[0]),
        dec_int(i).len() > 0, is_dig(dec_int(i)[0]) || dec_int(i)[0] == '-',
{ }
#[verifier::external_body]
proof fn ax_num_len(t: Txt, m: nat)
    ensures p_uint(t, m) matches Some((_, r)) ==> r.len() < t.len(),
        p_int(t, m) matches Some((_, r)) ==> r.len() < t.len(),
        f_parse(t) matches Some((_, r)) ==> r.len() < t.len(),
        (t.len() > 0 && !is_dig(t[0])) ==> p_uint(t, m) is None,
        (t.len() > 0 && !is_dig(t[0]) && t[0] != '-' && t[0] != '+') ==> p_int(t, m) is None,
{ }

#[verifier::external_body]
struct F64 { x: u64 }
uninterp spec fn f_dec(d: F64) -> Txt;
uninterp spec fn f_sci14(d: F64) -> Txt;
uninterp spec fn f_fract(d: F64) -> F64;
uninterp spec fn f_is_zero(d: F64) -> bool;
uninterp spec fn f_finite(d: F64) -> bool;
/// 15 significant decimal digits identify the value
uninterp spec fn f_short(d: F64) -> bool;
uninterp spec fn f_parse(t: Txt) -> Option<(F64, Txt)>;
/// characters which can continue a number
spec fn is_num(c: char) -> bool { is_dig(c) || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' }
#[verifier::external_body]
proof fn ax_f_dec(d: F64, k: Txt)
    requires f_finite(d), k.len() > 0 ==> !is_num(k[0]),
    ensures
        f_parse(lit(f_dec(d), k)) == Some((d, k)),
        f_is_zero(f_fract(d)) ==> f_parse(lit(f_dec(d), lit(seq!['.'], k))) == Some((d, k)),
{ }
#[verifier::external_body]
proof fn ax_f_sci(d: F64, k: Txt)
    requires f_finite(d), f_short(d), k.len() > 0 ==> !is_num(k[0]),
    ensures f_parse(lit(f_sci14(d), k)) == Some((d, k)),
{ }
#[verifier::external_body]
proof fn ax_f_first(d: F64)
    requires f_finite(d),
    ensures f_dec(d).len() > 0, is_dig(f_dec(d)[0]) || f_dec(d)[0] == '-',
        f_sci14(d).len() > 0, is_dig(f_sci14(d)[0]) || f_sci14(d)[0] == '-',
{ }
/// ISO 10303-21: [sign] digits "." [digits] ["E" [sign] digits]
uninterp spec fn is_step_real(t: Txt) -> bool;
#[verifier::external_body]
proof fn ax_real(d: F64)
    requires f_finite(d),
    ensures f_is_zero(f_fract(d)) ==> is_step_real(f_dec(d) + seq!['.']),
        !f_is_zero(f_fract(d)) ==> is_step_real(f_dec(d)),
        is_step_real(f_sci14(d)),
{ }

struct DVec2 { x: F64, y: F64 }
struct DVec3 { x: F64, y: F64, z: F64 }

// ---------------------------------------------------------------- chrono
#[verifier::external_body]
struct DateTime { x: u64 }
uninterp spec fn dt_ts(d: DateTime) -> int;
uninterp spec fn dt_from_ts(n: int) -> Option<DateTime>;
uninterp spec fn dt_iso(d: DateTime) -> Txt;
uninterp spec fn dt_rfc3339(t: Txt) -> Option<DateTime>;
/// whole seconds, year 0..=9999
uninterp spec fn dt_ok(d: DateTime) -> bool;
#[verifier::external_body]
proof fn ax_dt(d: DateTime)
    requires dt_ok(d),
    ensures dt_from_ts(dt_ts(d)) == Some(d), -MAXI() - 1 <= dt_ts(d) <= MAXI(),
        dt_rfc3339(dt_iso(d)) is None,
        dt_rfc3339(dt_iso(d) + seq!['Z']) == Some(d),
        !dt_iso(d).contains('\''),
{ }

// ---------------------------------------------------------------- uuid
#[verifier::external_body]
struct Uuid { x: u128 }
uninterp spec fn uuid_bytes(u: Uuid) -> Seq<nat>;
uninterp spec fn uuid_of(b: Seq<nat>) -> Uuid;
/// the digits which the two conversion functions exchange
uninterp spec fn b64_enc(b: Seq<nat>) -> Seq<nat>;
uninterp spec fn b64_dec(b: Seq<nat>) -> Seq<nat>;
#[verifier::external_body]
proof fn ax_uuid(u: Uuid)
    ensures uuid_of(uuid_bytes(u)) == u, uuid_bytes(u).len() == 16,
        forall|i: int| 0 <= i < 16 ==> #[trigger] uuid_bytes(u)[i] < 256,
{ }
/// buildingSMART's compression: two digits for the first byte, four for each further three bytes
spec fn digit(b: Seq<nat>, i: int) -> nat {
    if i == 0 { b[0] / 64 } else if i == 1 { b[0] % 64 } else {
        let g = 1 + 3 * ((i - 2) / 4);
        let v = b[g] * 65536 + b[g + 1] * 256 + b[g + 2];
        let j = (i - 2) % 4;
        if j == 0 { v / 262144 } else if j == 1 { (v / 4096) % 64 } else if j == 2 { (v / 64) % 64 } else { v % 64 }
    }
}
spec fn digits(b: Seq<nat>) -> Seq<nat> { Seq::new(22, |i: int| digit(b, i)) }
/// proved by Kani on the functions of /repo themselves (check C01)
#[verifier::external_body]
proof fn ax_b64(b: Seq<nat>)
    requires b.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] b[i] < 256,
    ensures b64_enc(b) == digits(b), b64_dec(digits(b)) == b,
{ }
/// proved by Kani on the function of /repo itself (checks C01 and C10)
#[verifier::external_body]
proof fn ax_b64_len(d: Seq<nat>)
    requires d.len() == 22, forall|i: int| 0 <= i < 22 ==> #[trigger] d[i] < 64,
    ensures b64_dec(d).len() == 16,
{ }

// ---------------------------------------------------------------- contracts of one syntax element
/// a text which may follow an attribute value
spec fn fo(k: Txt) -> bool { k.len() > 0 && (k[0] == ',' || k[0] == ')') }
/// a text to which white space skipping does nothing
spec fn solid(k: Txt) -> bool { k.len() > 0 ==> !is_ms(k[0]) && k[0] != '/' }
/// first characters of values
spec fn okc(c: char) -> bool { !is_ms(c) && c != '/' && c != ',' && c != ')' }

trait Ifc: Sized {
    /// text of the value, followed by k
    spec fn sh(self, k: Txt) -> Txt;
    /// parser: value and remaining text
    spec fn ps(t: Txt) -> Option<(Self, Txt)>;
    /// IFCParse::fallback
    spec fn fb(t: Txt) -> Option<(OptionalParameter<Self>, Txt)>;
    spec fn wf(self) -> bool;
    /// remaining text after parsing sh(k)
    spec fn end(k: Txt) -> Txt;
    spec fn fol(k: Txt) -> bool;
    /// print then parse gives the value back and consumes exactly its text
    proof fn rt(self, k: Txt)
        requires self.wf(), Self::fol(k),
        ensures Self::ps(self.sh(k)) == Some((self, Self::end(k)));
    /// attribute values may be followed by `,` or `)`
    proof fn val(k: Txt)
        ensures fo(k) ==> Self::fol(k) && Self::end(k) == k;
    proof fn first(self, k: Txt)
        requires self.wf(),
        ensures self.sh(k).len() > 0, okc(self.sh(k)[0]);
    /// parsing never grows the text and a value isn't empty
    proof fn eats(t: Txt)
        ensures Self::ps(t) matches Some((_, r)) ==> r.len() < t.len();
    proof fn fb_eats(t: Txt)
        ensures Self::fb(t) matches Some((_, r)) ==> r.len() < t.len();
}

/// values which can't be mistaken for `$` or `*`
trait Plain: Ifc {
    proof fn plain(self, k: Txt)
        requires self.wf(),
        ensures self.sh(k).len() > 0, self.sh(k)[0] != '$', self.sh(k)[0] != '*';
}

/// values which can't be mistaken for a reference
trait NoHash: Ifc {
    proof fn nohash(self, k: Txt)
        requires self.wf(),
        ensures self.sh(k).len() > 0, self.sh(k)[0] != '#';
}
