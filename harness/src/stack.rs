// Included per configuration: one call on a list of `len` entries of identical hash, on a thread of a given stack size.
// `--stack OP LEN KIB`: ends with 0 when the call completes; a stack overflow aborts the process.
pub fn stack_main(args: &[String]) -> ! {
    let i = args.iter().position(|a| a == "--stack").unwrap();
    let (op, len, kib): (String, usize, usize) = (args[i + 1].clone(), args[i + 2].parse().unwrap(), args[i + 3].parse().unwrap());
    let u = Uni { h: vec![0x5a5a_1234_5678_9abc_u128; len + 1], mode: 1, bits: bits(), logb: logb(), slots: Vec::new() };
    let kind = KINDS.iter().copied().find(|k| k.name() == op);
    let big = |f: Box<dyn FnOnce() -> (Any, Any) + Send>| std::thread::Builder::new().stack_size(4 << 30).spawn(f).unwrap().join().unwrap();
    let (lt, rt) = kind.map_or((Ty::MA, Ty::MA), |k| (k.left_ty(), k.right_ty()));
    let u2 = u.clone();
    // the right side is short: joint matching is quadratic in the lists, which is not the point here
    let (l, r) = big(Box::new(move || { let f = |t, n: usize| (0..n as u32).fold(Any::empty(t), |m, id| m.insert(&u2, id, 1, 1, 1, false, false).ok().unwrap().0); (f(lt, len), f(rt, 2)) }));
    let small = std::thread::Builder::new().stack_size(kib << 10).spawn(move || {
        let last = len as u32 - 1;
        match &op[..] {
            "find" => { assert!(l.find(&u, 0).is_some() && l.find(&u, last).is_some() && l.find(&u, len as u32).is_none()); }
            "visit" => { assert_eq!(l.visit_all().len(), len); }
            "insert" => { let m = l.insert(&u, len as u32, 2, 2, 2, false, false).ok().unwrap().0; assert_eq!(m.size(), len + 1); std::mem::forget(m); }
            "replace" => { let m = l.insert(&u, 0, 2, 2, 2, true, false).ok().unwrap().0; assert_eq!(m.size(), len); std::mem::forget(m); }
            "remove" => { let m = l.remove(&u, 0, false).unwrap().0; assert_eq!(m.size(), len - 1); std::mem::forget(m); }
            "drop" => { drop(l); return; }
            _ => {
                let mut s = Spec::gen(&mut Rng::new(1), kind.expect("an operation"), 0, 1);
                s.w = [[0, 0, 0, 1, 0]; 3]; s.record = false; s.strat = Strat::Seq;
                let rec = Rec::new(&s);
                let m = run_bulk(&s, &rec, &l, &r).unwrap().0;
                assert_eq!(m.size(), len);
                std::mem::forget(m);
            }
        }
        std::mem::forget(l); std::mem::forget(r);
    }).unwrap();
    let ok = small.join().is_ok();
    // nothing more is run or dropped on another stack
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(if ok { 0 } else { 3 }) }
}
