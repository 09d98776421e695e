//@ hidden: 1
// What the unchecked operations rely on cannot be forged by safe code.
#![allow(dead_code, unused)]
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};
fn some_of<'a>(o: &'a mut Option<String>) -> SomeBucket<'a, String> {
    return SomeBucket { outer: o }; //~ E0451|E0560
    loop {}
}
fn none_of<'a>(o: &'a mut Option<String>) -> NoneBucket<'a, String> {
    return NoneBucket { outer: o }; //~ E0451|E0560
    loop {}
}
fn some_unchecked<'a>(o: &'a mut Option<String>) -> SomeBucket<'a, String> {
    return SomeBucket::new_unchecked(o); //~ E0133|E0599|E0624
    loop {}
}
fn none_unchecked<'a>(o: &'a mut Option<String>) -> NoneBucket<'a, String> {
    return NoneBucket::new_unchecked(o); //~ E0133|E0599|E0624
    loop {}
}
fn opened<'a>(s: SomeBucket<'a, String>, n: NoneBucket<'a, String>) {
    let o: &mut Option<String> = s.outer; //~ E0616|E0609
    let o: &mut Option<String> = n.outer; //~ E0616|E0609
}
fn emptied<'a>(mut s: SomeBucket<'a, String>) {
    *s.outer = None; //~ E0616|E0609
}
fn taken_twice<'a>(s: SomeBucket<'a, String>) {
    let a = s.take();
    let b = s.take(); //~ E0382
}
fn used_after<'a>(s: SomeBucket<'a, String>) {
    let a = s.take();
    let b = s.as_ref(); //~ E0382
}
fn read_while<'a>(mut s: SomeBucket<'a, String>) {
    let a = s.as_ref();
    let b = s.replace(String::new()); //~ E0502
    let c: &String = a;
}
fn written_while<'a>(mut s: SomeBucket<'a, String>) {
    let a: &mut String = s.as_mut();
    let b: &mut String = s.as_mut(); //~ E0499
    a.push('x');
}
fn escaped<'a>(o: &'a mut Option<String>) -> SomeBucket<'static, String> {
    return SomeBucket::new(o).unwrap(); //~ =lifetime_may_not_live_long_enough|E0521
    loop {}
}
fn behind_its_back(mut o: Option<String>) {
    let s = SomeBucket::new(&mut o);
    o = None; //~ E0506
    drop(s);
}
fn still_there(mut o: Option<String>) {
    let s = OptionBucket::new(&mut o);
    o.take(); //~ E0499
    drop(s);
}
fn copied<'a>(s: SomeBucket<'a, String>) -> (SomeBucket<'a, String>, SomeBucket<'a, String>) {
    return (s.clone(), s); //~ E0599
    loop {}
}
fn covariant<'a, 'b>(s: SomeBucket<'a, &'static str>) -> SomeBucket<'a, &'b str> {
    return s; //~ =lifetime_may_not_live_long_enough|E0308
    loop {}
}
