U=[("u8",8),("u16",16),("u32",32),("u64",64),("usize",64)]
I=[("i8",8,"u8"),("i16",16,"u16"),("i32",32,"u32"),("i64",64,"u64"),("isize",64,"usize")]
o=["// Contracts of std functions which the crate doesn't use at present.  The extractor includes a paragraph only if the name","// behind `//@for` occurs in the current sources, so that a change that starts to use one can still be decided.","// Generated by tools/mkstd.py.",""]
def P(name,*lines):
    o.append("//@for "+name); o.extend(lines); o.append("")
P("div_ceil pow next_multiple_of rem_euclid","pub open spec fn std_pow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * std_pow(b, (e - 1) as nat) } }")
for t,n in U:
    m="0x%x"%(2**n)
    P("abs_diff","pub assume_specification [%s::abs_diff] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    ensures r as int == (if a >= b { a - b } else { b - a });")
    P("div_ceil","pub assume_specification [%s::div_ceil] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    requires b != 0,","    ensures r as int == (a as int + b as int - 1) / (b as int);")
    P("next_multiple_of","pub assume_specification [%s::next_multiple_of] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < %s,"%m,"    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);")
    P("overflowing_add","pub assume_specification [%s::overflowing_add] (a: %s, b: %s) -> (r: (%s, bool))"%(t,t,t,t),"    ensures r.1 == (a as int + b as int >= %s), r.0 as int == (if r.1 { a + b - %s } else { a + b });"%(m,m))
    P("overflowing_sub","pub assume_specification [%s::overflowing_sub] (a: %s, b: %s) -> (r: (%s, bool))"%(t,t,t,t),"    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + %s } else { a - b });"%m)
    P("overflowing_mul","pub assume_specification [%s::overflowing_mul] (a: %s, b: %s) -> (r: (%s, bool))"%(t,t,t,t),"    ensures r.1 == (a as int * b as int >= %s), r.0 as int == (a as int * b as int) %% %s;"%(m,m))
    P("wrapping_neg","pub assume_specification [%s::wrapping_neg] (a: %s) -> (r: %s)"%(t,t,t),"    ensures r as int == (if a == 0 { 0 } else { %s - a });"%m)
    P("checked_neg","pub assume_specification [%s::checked_neg] (a: %s) -> (r: Option<%s>)"%(t,t,t),"    ensures r == (if a == 0 { Some(0%s) } else { None });"%t)
    P("rem_euclid","pub assume_specification [%s::rem_euclid] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    requires b != 0,","    ensures r == a % b;")
    P("div_euclid","pub assume_specification [%s::div_euclid] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    requires b != 0,","    ensures r == a / b;")
    P("pow","pub assume_specification [%s::pow] (a: %s, e: u32) -> (r: %s)"%(t,t,t),"    requires std_pow(a as int, e as nat) < %s,"%m,"    ensures r as int == std_pow(a as int, e as nat);")
    P("checked_pow","pub assume_specification [%s::checked_pow] (a: %s, e: u32) -> (r: Option<%s>)"%(t,t,t),"    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= %s };"%m)
    P("checked_shl","pub assume_specification [%s::checked_shl] (a: %s, e: u32) -> (r: Option<%s>)"%(t,t,t),"    ensures r == (if e < %d { Some(a << e) } else { None });"%n)
    P("checked_shr","pub assume_specification [%s::checked_shr] (a: %s, e: u32) -> (r: Option<%s>)"%(t,t,t),"    ensures r == (if e < %d { Some(a >> e) } else { None });"%n)
    if t not in("u8","u16"):
        P("is_power_of_two","pub assume_specification [%s::is_power_of_two] (a: %s) -> (r: bool)"%(t,t),"    ensures r == (a != 0 && a & sub(a, 1) == 0), a < 0x10000 ==> r == pow2_16(a as u16);")
P("pow div_ceil checked_pow")
o.pop(); o.pop()
for t,n,u in I:
    lo="-0x%x"%(2**(n-1)); hi="0x%x"%(2**(n-1)); m="0x%x"%(2**n)
    if t!="i8": P("unsigned_abs","pub assume_specification [%s::unsigned_abs] (x: %s) -> (r: %s)"%(t,t,u),"    ensures r as int == (if x < 0 { -(x as int) } else { x as int });")
    P("abs","pub assume_specification [%s::abs] (x: %s) -> (r: %s)"%(t,t,t),"    requires x != %s::MIN,"%t,"    ensures r as int == (if x < 0 { -(x as int) } else { x as int });")
    P("wrapping_abs","pub assume_specification [%s::wrapping_abs] (x: %s) -> (r: %s)"%(t,t,t),"    ensures r as int == (if x < 0 && x != %s::MIN { -(x as int) } else { x as int });"%t)
    P("checked_abs","pub assume_specification [%s::checked_abs] (x: %s) -> (r: Option<%s>)"%(t,t,t),"    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == %s::MIN };"%t)
    P("checked_neg","pub assume_specification [%s::checked_neg] (x: %s) -> (r: Option<%s>)"%(t,t,t),"    ensures match r { Some(v) => v as int == -(x as int), None => x == %s::MIN };"%t)
    if t!="i64":
        P("wrapping_neg","pub assume_specification [%s::wrapping_neg] (x: %s) -> (r: %s)"%(t,t,t),"    ensures r as int == (if x == %s::MIN { x as int } else { -(x as int) });"%t)
        P("is_negative","pub assume_specification [%s::is_negative] (x: %s) -> (r: bool)"%(t,t),"    ensures r == (x < 0);")
    P("is_positive","pub assume_specification [%s::is_positive] (x: %s) -> (r: bool)"%(t,t),"    ensures r == (x > 0);")
    P("signum","pub assume_specification [%s::signum] (x: %s) -> (r: %s)"%(t,t,t),"    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });")
    P("saturating_add","pub assume_specification [%s::saturating_add] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    ensures r as int == (if a + b < %s { %s } else if a + b >= %s { %s - 1 } else { a + b });"%(lo,lo,hi,hi))
    P("saturating_sub","pub assume_specification [%s::saturating_sub] (a: %s, b: %s) -> (r: %s)"%(t,t,t,t),"    ensures r as int == (if a - b < %s { %s } else if a - b >= %s { %s - 1 } else { a - b });"%(lo,lo,hi,hi))
    P("overflowing_add","pub assume_specification [%s::overflowing_add] (a: %s, b: %s) -> (r: (%s, bool))"%(t,t,t,t),"    ensures r.1 == (a + b < %s || a + b >= %s), r.0 as int == (if a + b < %s { a + b + %s } else if a + b >= %s { a + b - %s } else { a + b });"%(lo,hi,lo,m,hi,m))
    P("overflowing_neg","pub assume_specification [%s::overflowing_neg] (x: %s) -> (r: (%s, bool))"%(t,t,t),"    ensures r.1 == (x == %s::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });"%t)
    P("abs_diff","pub assume_specification [%s::abs_diff] (a: %s, b: %s) -> (r: %s)"%(t,t,t,u),"    ensures r as int == (if a >= b { a - b } else { b - a });")
    P("saturating_add_unsigned","pub assume_specification [%s::saturating_add_unsigned] (a: %s, b: %s) -> (r: %s)"%(t,t,u,t),"    ensures r as int == (if a + b >= %s { %s - 1 } else { a + b });"%(hi,hi))
    P("saturating_add_signed","pub assume_specification [%s::saturating_add_signed] (a: %s, b: %s) -> (r: %s)"%(u,u,t,u),"    ensures r as int == (if a + b < 0 { 0 } else if a + b >= %s { %s - 1 } else { a + b });"%(m,m))
P("map_or","pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (s: Option<T>, d: U, f: F) -> (r: U)","    requires s is Some ==> f.requires((s->0,)),","    ensures match s { Some(v) => f.ensures((v,), r), None => r == d };")
P("is_some_and","pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (s: Option<T>, f: F) -> (r: bool)","    requires s is Some ==> f.requires((s->0,)),","    ensures match s { Some(v) => f.ensures((v,), r), None => !r };")
P("is_none_or","pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (s: Option<T>, f: F) -> (r: bool)","    requires s is Some ==> f.requires((s->0,)),","    ensures match s { Some(v) => f.ensures((v,), r), None => r };")
P("or","pub assume_specification<T> [Option::<T>::or] (s: Option<T>, o: Option<T>) -> (r: Option<T>)","    ensures r == (if s is Some { s } else { o });")
P("or_else","pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (s: Option<T>, f: F) -> (r: Option<T>)","    requires s is None ==> f.requires(()),","    ensures match s { Some(v) => r == s, None => f.ensures((), r) };")
P("filter","pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (s: Option<T>, f: F) -> (r: Option<T>)","    requires s is Some ==> f.requires((&(s->0),)),","    ensures match s { Some(v) => (r == s && f.ensures((&v,), true)) || (r is None && f.ensures((&v,), false)), None => r is None };")
P("flatten","pub assume_specification<T> [Option::<Option<T>>::flatten] (s: Option<Option<T>>) -> (r: Option<T>)","    ensures r == (match s { Some(v) => v, None => None });")
P("replace","pub assume_specification<T> [Option::<T>::replace] (s: &mut Option<T>, v: T) -> (r: Option<T>)","    ensures r == *old(s), *final(s) == Some(v);")
P("replace","pub assume_specification<T> [core::mem::replace] (s: &mut T, v: T) -> (r: T)","    ensures r == *old(s), *final(s) == v;")
P("copied","pub assume_specification<T: Copy> [Option::<&T>::copied] (s: Option<&T>) -> (r: Option<T>)","    ensures r == (match s { Some(v) => Some(*v), None => None });")
P("zip","pub assume_specification<T, U> [Option::<T>::zip] (s: Option<T>, o: Option<U>) -> (r: Option<(T, U)>)","    ensures r == (if s is Some && o is Some { Some((s->0, o->0)) } else { None });")
P("transpose","pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (s: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)","    ensures r == (match s { Some(Ok(v)) => Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) });")
P("and_then","pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>> [core::result::Result::<T, E>::and_then] (s: core::result::Result<T, E>, f: F) -> (r: core::result::Result<U, E>)","    requires s is Ok ==> f.requires((s->Ok_0,)),","    ensures match s { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };")
P("unwrap_or","pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (s: core::result::Result<T, E>, d: T) -> (r: T)","    ensures r == (match s { Ok(v) => v, Err(_) => d });")
P("is_ok_and","pub assume_specification<T, E, F: FnOnce(T) -> bool> [core::result::Result::<T, E>::is_ok_and] (s: core::result::Result<T, E>, f: F) -> (r: bool)","    requires s is Ok ==> f.requires((s->Ok_0,)),","    ensures match s { Ok(v) => f.ensures((v,), r), Err(_) => !r };")
O="core::cmp::Ordering"
P("then","pub assume_specification [%s::then] (a: %s, b: %s) -> (r: %s)"%(O,O,O,O),"    ensures r == (if a == %s::Equal { b } else { a });"%O)
P("then_with","pub assume_specification<F: FnOnce() -> %s> [%s::then_with] (a: %s, f: F) -> (r: %s)"%(O,O,O,O),"    requires a == %s::Equal ==> f.requires(()),"%O,"    ensures if a == %s::Equal { f.ensures((), r) } else { r == a };"%O)
for n,c in (("is_lt","a == O::Less"),("is_gt","a == O::Greater"),("is_eq","a == O::Equal"),("is_ne","a != O::Equal"),("is_le","a != O::Greater"),("is_ge","a != O::Less")):
    P(n,"pub assume_specification [%s::%s] (a: %s) -> (r: bool)"%(O,n,O),"    ensures r == (%s);"%c.replace("O::",O+"::"))
P("reverse","pub assume_specification [%s::reverse] (a: %s) -> (r: %s)"%(O,O,O),"    ensures r == (match a { %s::Less => %s::Greater, %s::Greater => %s::Less, %s::Equal => %s::Equal });"%((O,)*6))
P("then_some","pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)","    ensures r == (if b { Some(v) } else { None });")
s="\n".join(o)+"\n"
s=s.replace("//@for div_ceil pow next_multiple_of rem_euclid","//@for pow checked_pow")
open("/verif/contracts/std.rs","w").write(s)
open("/tmp/st/s.rs","w").write("#![allow(unused)]\nuse vstd::prelude::*; fn main(){} verus!{\npub open spec fn pow2_16(x: u16) -> bool { true }\n"+s+"}")
