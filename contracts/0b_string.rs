// integer literals and their printed form
pub assume_specification [char::to_digit] (c: char, b: u32) -> (r: Option<u32>)
    requires 2 <= b <= 16,
    ensures match r { Some(n) => n < b && digv(c) == Some(n as nat), None => digv(c) is None || digv(c)->Some_0 >= b };
pub assume_specification [char::is_digit] (c: char, b: u32) -> (r: bool)
    requires 2 <= b <= 16,
    ensures r == (digv(c) is Some && digv(c)->Some_0 < b);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == lower(*c);
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == blen(s@);
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
/// value of a hexadecimal digit
pub open spec fn digv(c: char) -> Option<nat> {
    if '0' <= c <= '9' { Some((c as int - 48) as nat) } else if 'a' <= c <= 'f' { Some((c as int - 87) as nat) } else if 'A' <= c <= 'F' { Some((c as int - 55) as nat) } else { None }
}
pub open spec fn dig(d: nat) -> char { if d < 10 { (48 + d) as u8 as char } else { (87 + d) as u8 as char } }
/// bytes of a string
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub proof fn blen_take(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)) decreases j
{ if i < j { assert(s.take(j).drop_last() =~= s.take(j - 1)); blen_take(s, i, j - 1); } }
pub proof fn blen_uniq(s: Seq<char>, i: int, j: int) requires 0 <= i <= s.len(), 0 <= j <= s.len(), blen(s.take(i)) == blen(s.take(j)) ensures i == j
{ if i < j { blen_take(s, i, j); } else if j < i { blen_take(s, j, i); } }
pub proof fn blen_zero(s: Seq<char>) ensures blen(s) == 0 <==> s.len() == 0, blen(s) >= s.len(), blen(Seq::<char>::empty()) == 0
{ blen_take(s, 0, s.len() as int); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty()); }
/// the digits of n in base b
#[via_fn]
proof fn num_dec(n: nat, b: nat) { if !(n < b || b < 2) { assert(n / b < n) by(nonlinear_arith) requires n >= b, b >= 2; } }
pub open spec fn num(n: nat, b: nat) -> Seq<char> decreases n via num_dec { if n < b || b < 2 { seq![dig(n)] } else { num(n / b, b).push(dig(n % b)) } }
pub open spec fn padk(n: nat, b: nat, k: nat) -> Seq<char> decreases k { if k == 0 { Seq::empty() } else { padk(n / b, b, (k - 1) as nat).push(dig(n % b)) } }
pub open spec fn padl(s: Seq<char>, w: nat) -> Seq<char> { if s.len() >= w { s } else { Seq::new((w - s.len()) as nat, |i: int| '0') + s } }
pub open spec fn trim0(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { trim0(s.skip(1), c) } else { s } }
pub open spec fn flat(v: Seq<String>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
pub open spec fn radix(c: char) -> Option<nat> { if c == 'x' || c == 'X' { Some(16nat) } else if c == 'o' || c == 'O' { Some(8nat) } else if c == 'b' || c == 'B' { Some(2nat) } else { None } }
pub open spec fn isd(c: char, b: nat) -> bool { digv(c) is Some && digv(c)->Some_0 < b }
pub open spec fn alld(t: Seq<char>, b: nat) -> bool { forall|i: int| 0 <= i < t.len() ==> isd(#[trigger] t[i], b) }
pub open spec fn dnum(t: Seq<char>, b: nat) -> nat decreases t.len() { if t.len() == 0 { 0 } else { dnum(t.drop_last(), b) * b + digv(t.last())->Some_0 } }
/// the number a literal without underscores denotes
pub open spec fn lit(t: Seq<char>) -> Option<nat> {
    if t.len() == 0 { None }
    else if t[0] == '0' {
        if t.len() == 1 { Some(0nat) }
        else { match radix(t[1]) { Some(b) => if t.len() > 2 && alld(t.skip(2), b) { Some(dnum(t.skip(2), b)) } else { None }, None => None } }
    } else if alld(t, 10) { Some(dnum(t, 10)) } else { None }
}
pub open spec fn clean(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == '_' { clean(s.drop_last()) } else { clean(s.drop_last()).push(s.last()) } }
/// underscores are ignored, except in front
pub open spec fn parse(s: Seq<char>) -> Option<nat> { if s.len() == 0 || s[0] == '_' { None } else { lit(clean(s)) } }
pub open spec fn parse_i(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { match parse(s.skip(1)) { Some(n) => Some(-(n as int)), None => None } }
    else { match parse(s) { Some(n) => Some(n as int), None => None } }
}
pub enum StringToNumFSM { Init, InitialZero, InitNum, ReadNum }
// expansion of #[derive(PartialEq)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for StringToNumFSM {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &StringToNumFSM) -> bool { *self == *other }
}
impl PartialEq for StringToNumFSM {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { std::mem::discriminant(self) == std::mem::discriminant(other) }
}
pub open spec fn fsm(st: StringToNumFSM, p: Seq<char>, base: nat, val: nat) -> bool {
    match st {
        StringToNumFSM::Init => p.len() == 0 && base == 10,
        StringToNumFSM::InitialZero => p == seq!['0'] && base == 10,
        StringToNumFSM::InitNum => p.len() == 2 && p[0] == '0' && radix(p[1]) == Some(base),
        StringToNumFSM::ReadNum => p.len() > 0 && if p[0] == '0' { p.len() > 2 && radix(p[1]) == Some(base) && alld(p.skip(2), base) && dnum(p.skip(2), base) == val } else { base == 10 && alld(p, 10) && dnum(p, 10) == val },
    }
}
/// no continuation of p is a literal
pub open spec fn dead(p: Seq<char>) -> bool {
    p.len() > 0 && if p[0] == '0' { p.len() > 1 && match radix(p[1]) { Some(b) => !alld(p.skip(2), b), None => true } } else { !alld(p, 10) }
}
pub proof fn alld_push(t: Seq<char>, c: char, b: nat) ensures alld(t.push(c), b) <==> alld(t, b) && isd(c, b), dnum(t.push(c), b) == dnum(t, b) * b + digv(c)->Some_0
{
    let u = t.push(c); assert(u.drop_last() =~= t);
    if alld(u, b) { assert(u[t.len() as int] == c); assert forall|i: int| 0 <= i < t.len() implies isd(#[trigger] t[i], b) by { assert(u[i] == t[i]); } }
}
pub proof fn fsm_step(st: StringToNumFSM, p: Seq<char>, base: nat, val: nat, c: char)
    requires fsm(st, p, base, val), c != '_', p.len() > 2 || st != StringToNumFSM::ReadNum || p[0] != '0'
    ensures ({ let q = p.push(c);
        match st {
            StringToNumFSM::Init => if c == '0' { q == seq!['0'] } else if isd(c, 10) { fsm(StringToNumFSM::ReadNum, q, 10, digv(c)->Some_0) } else { dead(q) },
            StringToNumFSM::InitialZero => match radix(c) { Some(b) => fsm(StringToNumFSM::InitNum, q, b, 0), None => dead(q) },
            StringToNumFSM::InitNum | StringToNumFSM::ReadNum => if isd(c, base) { fsm(StringToNumFSM::ReadNum, q, base, if st == StringToNumFSM::InitNum { digv(c)->Some_0 } else { val * base + digv(c)->Some_0 }) } else { dead(q) },
        } })
{
    let q = p.push(c);
    assert(dnum(Seq::<char>::empty(), base) == 0 && dnum(Seq::<char>::empty(), 10) == 0);
    match st {
        StringToNumFSM::Init => { assert(p =~= Seq::empty()); alld_push(p, c, 10); assert(q =~= seq![c]); }
        StringToNumFSM::InitialZero => { assert(q[0] == '0' && q[1] == c); assert(q.skip(2) =~= Seq::empty()); }
        StringToNumFSM::InitNum => { alld_push(p.skip(2), c, base); assert(p.skip(2) =~= Seq::empty()); assert(q.skip(2) =~= p.skip(2).push(c)); assert(q[0] == '0' && q[1] == p[1]); assert(0 * base == 0) by(nonlinear_arith); }
        StringToNumFSM::ReadNum => {
            assert(q[0] == p[0]);
            if p[0] == '0' { assert(q[1] == p[1]); alld_push(p.skip(2), c, base); assert(q.skip(2) =~= p.skip(2).push(c)); } else { alld_push(p, c, 10); }
        }
    }
}
pub proof fn clean_push(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures clean(s.take(i + 1)) == if s[i] == '_' { clean(s.take(i)) } else { clean(s.take(i)).push(s[i]) }
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn clean_prefix(s: Seq<char>, i: int, n: int) requires 0 <= i <= n <= s.len() ensures clean(s.take(i)).len() <= clean(s.take(n)).len(), clean(s.take(n)).take(clean(s.take(i)).len() as int) == clean(s.take(i)) decreases n
{
    if i < n { clean_prefix(s, i, n - 1); clean_push(s, n - 1); let k = clean(s.take(i)).len() as int; assert(clean(s.take(n)).take(k) =~= clean(s.take(n - 1)).take(k)); }
    else { assert(clean(s.take(n)).take(clean(s.take(i)).len() as int) =~= clean(s.take(i))); }
}
pub proof fn dead_prefix(t: Seq<char>, k: int) requires 0 <= k <= t.len(), dead(t.take(k)) ensures lit(t) is None
{
    let p = t.take(k);
    assert(p[0] == t[0]);
    if p[0] == '0' {
        assert(p[1] == t[1]);
        if let Some(b) = radix(p[1]) {
            let i = choose|i: int| 0 <= i < p.skip(2).len() && !isd(#[trigger] p.skip(2)[i], b);
            assert(t.skip(2)[i] == p.skip(2)[i]);
        }
    } else {
        let i = choose|i: int| 0 <= i < p.len() && !isd(#[trigger] p[i], 10);
        assert(t[i] == p[i]);
    }
}
/// the whole string has no number if a prefix is dead
pub proof fn dead_string(s: Seq<char>, i: int) requires 0 <= i <= s.len(), dead(clean(s.take(i))) ensures parse(s) is None
{ clean_prefix(s, i, s.len() as int); assert(s.take(s.len() as int) =~= s); dead_prefix(clean(s), clean(s.take(i)).len() as int); }

// N21 helpers: std string functions
#[verifier::external_body]
pub fn vx_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
#[verifier::external_body]
pub fn vx_concat(v: &Vec<String>) -> (r: String) ensures r@ == flat(v@) { v.concat() }
#[verifier::external_body]
pub fn vx_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn vx_trim_start(s: &str, c: char) -> (r: String) ensures r@ == trim0(s@, c) { s.trim_start_matches(c).to_string() }
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
/// the character position at a byte offset, if the offset is a character boundary
#[verifier::opaque]
pub open spec fn bpos(s: Seq<char>, i: int) -> Option<int> { if exists|k: int| 0 <= k <= s.len() && i == blen(#[trigger] s.take(k)) { Some(choose|k: int| 0 <= k <= s.len() && i == blen(#[trigger] s.take(k))) } else { None } }
pub proof fn bpos_is(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures bpos(s, blen(s.take(k)) as int) == Some(k)
{ reveal(bpos); let l = choose|l: int| 0 <= l <= s.len() && blen(s.take(k)) == blen(#[trigger] s.take(l)); blen_uniq(s, k, l); }
#[verifier::external_body]
pub fn vx_str_get_from(s: &str, i: usize) -> (r: Option<&str>)
    ensures match bpos(s@, i as int) { Some(k) => r is Some && r->Some_0@ == s@.skip(k), None => r is None }
{ s.get(i..) }
#[verifier::external_body]
pub fn vx_str_get(s: &str, i: usize, j: usize) -> (r: Option<&str>)
    ensures match (bpos(s@, i as int), bpos(s@, j as int)) { (Some(k), Some(l)) => if i <= j { r is Some && r->Some_0@ == s@.subrange(k, l) } else { r is None }, _ => r is None }
{ s.get(i..j) }
#[verifier::external_body]
pub fn vx_find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { Some(i) => exists|k: int| 0 <= k < s@.len() && s@[k] == c && i == blen(#[trigger] s@.take(k)) && (forall|j: int| 0 <= j < k ==> s@[j] != c), None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != c }
{ s.find(c) }
pub trait VxShow { spec fn show(&self) -> Seq<char>; fn vx_display(&self) -> (r: String) ensures r@ == self.show(); }
impl VxShow for u32 { open spec fn show(&self) -> Seq<char> { num(*self as nat, 10) } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl VxShow for u64 { open spec fn show(&self) -> Seq<char> { num(*self as nat, 10) } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { num(*self as nat, 10) } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl VxShow for i32 { open spec fn show(&self) -> Seq<char> { num_i(*self as int, 10) } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl VxShow for str { open spec fn show(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl VxShow for String { open spec fn show(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_display(&self) -> (r: String) { self.to_string() } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn show(&self) -> Seq<char> { (*self).show() } fn vx_display(&self) -> (r: String) { (**self).vx_display() } }
pub fn vx_show<T: VxShow + ?Sized>(x: &T) -> (r: String) ensures r@ == x.show() { x.vx_display() }
pub open spec fn num_i(n: int, b: nat) -> Seq<char> { if n < 0 { seq!['-'] + num((-n) as nat, b) } else { num(n as nat, b) } }
pub trait VxFmt { spec fn nat(&self) -> nat; fn vx_fmt1(&self, w: usize, b: u32) -> (r: String) requires b == 2 || b == 8 || b == 10 || b == 16 ensures r@ == padl(num(self.nat(), b as nat), w as nat); }
impl VxFmt for u32 {
    open spec fn nat(&self) -> nat { *self as nat }
    #[verifier::external_body] fn vx_fmt1(&self, w: usize, b: u32) -> (r: String) { match b { 2 => format!("{:0w$b}", self), 8 => format!("{:0w$o}", self), 10 => format!("{:0w$}", self), _ => format!("{:0w$x}", self) } }
}
impl<'a, T: VxFmt> VxFmt for &'a T { open spec fn nat(&self) -> nat { (*self).nat() } fn vx_fmt1(&self, w: usize, b: u32) -> (r: String) { (**self).vx_fmt1(w, b) } }
pub fn vx_fmt<T: VxFmt>(x: &T, w: usize, b: u32) -> (r: String) requires b == 2 || b == 8 || b == 10 || b == 16 ensures r@ == padl(num(x.nat(), b as nat), w as nat) { x.vx_fmt1(w, b) }

// printed digits
pub proof fn num_ok(n: nat, b: nat) requires 2 <= b <= 16 ensures num(n, b).len() >= 1, alld(num(n, b), b), dnum(num(n, b), b) == n, n > 0 ==> num(n, b)[0] != '0', forall|i: int| 0 <= i < num(n, b).len() ==> #[trigger] num(n, b)[i] != '_' && num(n, b)[i] != '-' decreases n
{
    let d = n % b;
    assert(d < b);
    if n < b {
        assert(dig(n) != '_' && isd(dig(n), b) && digv(dig(n))->Some_0 == n);
        assert(seq![dig(n)].drop_last() =~= Seq::empty());
        assert(dnum(Seq::<char>::empty(), b) == 0); assert(0 * b == 0) by(nonlinear_arith);
        assert(dnum(seq![dig(n)], b) == dnum(seq![dig(n)].drop_last(), b) * b + n);
    } else {
        assert(n / b < n) by(nonlinear_arith) requires n >= b, b >= 2; num_ok(n / b, b); alld_push(num(n / b, b), dig(d), b);
        lemma_fundamental_div_mod(n as int, b as int); comm(b as int, (n / b) as int);
        assert(isd(dig(d), b) && digv(dig(d))->Some_0 == d);
        assert(n / b > 0) by(nonlinear_arith) requires n >= b, b >= 2;
    }
}
pub proof fn padk_zero(b: nat, k: nat) requires b >= 2 ensures padk(0, b, k) == Seq::new(k, |i: int| '0') decreases k
{
    if k > 0 { padk_zero(b, (k - 1) as nat); assert(0nat / b == 0 && 0nat % b == 0) by(nonlinear_arith) requires b >= 2; }
    assert(padk(0, b, k) =~= Seq::new(k, |i: int| '0'));
}
/// zero padding of the digits of n < b^k
pub proof fn num_pad(n: nat, b: nat, k: nat) requires 2 <= b <= 16, k >= 1, n < ipow(b as int, k) ensures padl(num(n, b), k) == padk(n, b, k), num(n, b).len() <= k decreases k
{
    let h = (k - 1) as nat;
    num_ok(n, b);
    if n < b {
        assert(n / b == 0 && n % b == n) by(nonlinear_arith) requires n < b;
        padk_zero(b, h);
        assert(padl(num(n, b), k) =~= padk(n, b, k));
    } else {
        if h == 0 { assert(ipow(b as int, 0) == 1); assert(ipow(b as int, 1) == b as int * ipow(b as int, 0)); assert(b as int * 1 == b) by(nonlinear_arith); }
        ipow_div(n, b, k);
        num_pad(n / b, b, h);
        assert(padl(num(n, b), k) =~= padl(num(n / b, b), h).push(dig(n % b)));
    }
}
pub proof fn ipow_div(n: nat, b: nat, k: nat) requires b >= 2, k >= 1, n < ipow(b as int, k) ensures n / b < ipow(b as int, (k - 1) as nat)
{
    let q = n / b; let p = ipow(b as int, (k - 1) as nat);
    lemma_fundamental_div_mod(n as int, b as int);
    assert(ipow(b as int, k) == b * p);
    assert(q < p) by(nonlinear_arith) requires b * q <= n, n < b * p, b >= 2;
}
/// digits of q * b^k + r
pub proof fn num_cat(q: nat, r: nat, b: nat, k: nat) requires 2 <= b <= 16, q > 0, r < ipow(b as int, k) ensures q * ipow(b as int, k) + r >= 0, num((q * ipow(b as int, k) + r) as nat, b) == num(q, b) + padk(r, b, k) decreases k
{
    let p = ipow(b as int, k);
    assert(q * p >= 0) by(nonlinear_arith) requires p > r, r >= 0, q > 0;
    let n = (q * p + r) as nat;
    if k == 0 { assert(p == 1); assert(q * 1 == q); assert(num(q, b) + padk(r, b, k) =~= num(q, b)); }
    else {
        let h = (k - 1) as nat; let s = ipow(b as int, h);
        ipow_div(r, b, k);
        lemma_fundamental_div_mod(r as int, b as int);
        assert(p == b * s);
        let m = q * s + r / b;
        let w = r / b;
        assert(q * (b * s) + b * w == b * (q * s + w)) by(nonlinear_arith);
        comm(b as int, m);
        lemma_fundamental_div_mod_converse(n as int, b as int, m, (r % b) as int);
        num_cat(q, r / b, b, h);
        assert(s >= 1);
        assert(m >= 1) by(nonlinear_arith) requires m == q * s + r / b, q >= 1, s >= 1, r / b >= 0;
        assert(n >= b) by(nonlinear_arith) requires n == m * b + r % b, m >= 1, r % b >= 0;
        assert(num(n, b) =~= num(q, b) + padk(r, b, k));
    }
}
pub proof fn trim_zeros(k: nat, s: Seq<char>) ensures trim0(Seq::new(k, |i: int| '0') + s, '0') == trim0(s, '0') decreases k
{
    let z = Seq::new(k, |i: int| '0');
    if k > 0 { trim_zeros((k - 1) as nat, s); assert((z + s).skip(1) =~= Seq::new((k - 1) as nat, |i: int| '0') + s); assert((z + s)[0] == '0'); }
    else { assert(z + s =~= s); }
}
/// the leading group of digits, trimmed
pub proof fn trim_num(n: nat, b: nat, k: nat) requires 2 <= b <= 16 ensures trim0(padl(num(n, b), k), '0') == if n == 0 { Seq::<char>::empty() } else { num(n, b) }
{
    let s = num(n, b); num_ok(n, b);
    if s.len() < k { trim_zeros((k - s.len()) as nat, s); }
    if n == 0 { assert(s =~= seq!['0']); assert(s.skip(1) =~= Seq::empty()); assert(trim0(Seq::<char>::empty(), '0') =~= Seq::empty()); assert(trim0(s, '0') == trim0(s.skip(1), '0')); }
}
pub proof fn flat_front(v: Seq<String>) requires v.len() > 0 ensures flat(v) == v[0]@ + flat(v.skip(1)) decreases v.len()
{
    if v.len() == 1 { assert(v.drop_last() =~= Seq::empty()); assert(v.skip(1) =~= Seq::empty()); assert(flat(v) =~= v[0]@ + flat(v.skip(1))); }
    else { flat_front(v.drop_last()); assert(v.drop_last().skip(1) =~= v.skip(1).drop_last()); assert(v.skip(1).last() == v.last()); assert(flat(v) =~= v[0]@ + flat(v.skip(1))); }
}
pub proof fn flat_push_rev(v: Seq<String>, x: String) ensures flat(v.push(x).reverse()) == x@ + flat(v.reverse())
{ let w = v.push(x).reverse(); flat_front(w); assert(w.skip(1) =~= v.reverse()); assert(w[0] == x); }

/// one digit more in the buffer
pub proof fn buf_step(u: nat, c: int, i: int, b: int, n: int)
    requires 0 <= i < c <= 0x8_000_000, 2 <= b <= 16, 0 <= n < b
    ensures 0 <= i * b <= i * b + n < c * b <= 0x8000_0000, (u * c + i) * b + n == u * (c * b) + (i * b + n), 2 <= c * b
{
    assert(i * b + n < c * b) by(nonlinear_arith) requires i + 1 <= c, n < b, b >= 2;
    assert(c * b <= 0x8000_0000) by(nonlinear_arith) requires c <= 0x8_000_000, b <= 16, c >= 0;
    assert(i * b >= 0) by(nonlinear_arith) requires i >= 0, b >= 2;
    assert(c * b >= 2) by(nonlinear_arith) requires c >= 1, b >= 2;
    assert((u * c + i) * b + n == u * (c * b) + (i * b + n)) by(nonlinear_arith);
}

pub proof fn ipow_vals() ensures ipow(10, 9) == 1_000_000_000, ipow(8, 10) == 0x4000_0000, ipow(16, 8) == B, ipow(2, 32) == B, p2(30) == 0x4000_0000
{ reveal_with_fuel(ipow, 34); reveal_with_fuel(p2, 31); assert(ipow(10, 9) == 1_000_000_000) by(compute); assert(ipow(8, 10) == 0x4000_0000) by(compute); assert(ipow(16, 8) == 0x1_0000_0000) by(compute); assert(ipow(2, 32) == 0x1_0000_0000) by(compute); }
/// one group of k digits less
pub proof fn group(v: nat, m: nat, b: nat, k: nat, buf: Seq<String>, x: String)
    requires 2 <= b <= 16, k >= 1, m > 0, m == ipow(b as int, k), v >= m, x@ == padl(num(v % m, b), k)
    ensures v / m > 0, num(v, b) + flat(buf.reverse()) == num(v / m, b) + flat(buf.push(x).reverse())
{
    let (q, r) = (v / m, v % m);
    lemma_fundamental_div_mod(v as int, m as int); comm(m as int, q as int);
    assert(q > 0) by(nonlinear_arith) requires v == q * m + r, v >= m, r < m;
    num_cat(q, r, b, k); num_pad(r, b, k); flat_push_rev(buf, x);
    assert(num(v, b) + flat(buf.reverse()) =~= num(q, b) + (padk(r, b, k) + flat(buf.reverse())));
}
/// words printed with k digits each, the leading one without zeros
pub open spec fn groups(s: Seq<u32>, v: Seq<String>, b: nat, k: nat) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == padl(num(s[i] as nat, b), k) }
pub proof fn words(s: Seq<u32>, v: Seq<String>, b: nat, k: nat, i: nat)
    requires 2 <= b <= 16, k >= 1, ipow(b as int, k) == B, groups(s, v, b, k), 1 <= i <= s.len()
    ensures ({ let rest = flat(v.take(i - 1).reverse()); let top = s[i - 1] as nat; top > 0 ==> num(vp(s, i), b) == num(top, b) + rest })
    decreases i
{
    let top = s[i - 1] as nat;
    if i == 1 { assert(v.take(0).reverse() =~= Seq::empty()); pw_1(); vp_1(s); assert(num(top, b) + flat(v.take(0).reverse()) =~= num(top, b)); }
    else if top > 0 { words_mul(s, v, b, k, (i - 1) as nat, top); assert(vp(s, i) == vp(s, (i - 1) as nat) + top * pw((i - 1) as nat)); }
}
pub proof fn words_mul(s: Seq<u32>, v: Seq<String>, b: nat, k: nat, i: nat, q: nat)
    requires 2 <= b <= 16, k >= 1, ipow(b as int, k) == B, groups(s, v, b, k), i <= s.len(), q > 0
    ensures num((vp(s, i) + q * pw(i)) as nat, b) == num(q, b) + flat(v.take(i as int).reverse())
    decreases i
{
    if i == 0 { assert(v.take(0).reverse() =~= Seq::empty()); pw_1(); assert(num(q, b) + flat(v.take(0).reverse()) =~= num(q, b)); assert(q * 1 == q); }
    else {
        let h = (i - 1) as nat; let d = s[h as int] as nat; let x = v[h as int];
        let q2 = (q * B + d) as nat;
        assert(pw(i) == B * pw(h));
        assert(vp(s, i) == vp(s, h) + d * pw(h));
        assert(vp(s, i) + q * pw(i) == vp(s, h) + q2 * pw(h)) by { let w = pw(h); assert(d * w + q * (B * w) == (q * B + d) * w) by(nonlinear_arith); }
        words_mul(s, v, b, k, h, q2);
        num_cat(q, d, b, k); num_pad(d, b, k);
        assert(v.take(i as int) =~= v.take(h as int).push(x));
        flat_push_rev(v.take(h as int), x);
        assert(num(q2, b) + flat(v.take(h as int).reverse()) =~= num(q, b) + (padk(d, b, k) + flat(v.take(h as int).reverse())));
    }
}
/// what the printers assemble: prefix, leading group, remaining groups
pub proof fn assemble(v0: Seq<String>, v1: Seq<String>, x: String, p: String)
    requires v0.len() >= 1, v1 == v0.push(p).reverse().update(1, x)
    ensures flat(v1) == p@ + (x@ + flat(v0.drop_last().reverse()))
{
    flat_front(v1); flat_front(v1.skip(1));
    assert(v1[0] == p);
    assert(v1.skip(1)[0] == x);
    assert(v1.skip(1).skip(1) =~= v0.drop_last().reverse());
}

pub proof fn small_words() ensures forall|x: UBigInt| #![trigger x.v()] x.wf() && x.v() < B ==> x.0@.len() == 1 && x.0@[0] as nat == x.v()
{ assert forall|x: UBigInt| #![trigger x.v()] x.wf() && x.v() < B implies x.0@.len() == 1 && x.0@[0] as nat == x.v() by { canon_bounds(x.0@); } }
pub proof fn minus_byte(s: Seq<char>) requires s.len() > 0, s[0] == '-' ensures blen(s.take(1)) == 1, bpos(s, 1) == Some(1int)
{
    assert(s.take(1).drop_last() =~= Seq::empty()); assert(blen(Seq::<char>::empty()) == 0);
    bpos_is(s, 1);
}
/// printing and reading are inverse to each other
pub proof fn roundtrip_dec(n: nat) ensures parse(num(n, 10)) == Some(n)
{ num_ok(n, 10); clean_id(num(n, 10)); if n == 0 { assert(num(0, 10) =~= seq!['0']); } }
pub proof fn roundtrip_prefix(n: nat, c: char, b: nat) requires radix(c) == Some(b) ensures parse(seq!['0', c] + num(n, b)) == Some(n)
{
    let t = seq!['0', c] + num(n, b);
    num_ok(n, b);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '_' by { if i >= 2 { assert(t[i] == num(n, b)[i - 2]); } }
    clean_id(t);
    assert(t.skip(2) =~= num(n, b));
}
pub proof fn clean_id(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '_' ensures clean(s) == s decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '_' by { assert(s[i] == t[i]); } clean_id(t); assert(s.last() != '_'); assert(t.push(s.last()) =~= s); } else { assert(clean(s) =~= s); } }
pub proof fn roundtrip_int(n: int) ensures parse_i(num_i(n, 10)) == Some(n)
{
    let m = iabs(n); roundtrip_dec(m); num_ok(m, 10);
    if n < 0 { let t = seq!['-'] + num(m, 10); assert(t.skip(1) =~= num(m, 10)); } 
}
