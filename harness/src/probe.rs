use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    // docs separated by lines "%%%"
    std::panic::set_hook(Box::new(|i| { println!("   PANIC at {:?}", i.location().map(|l| format!("{}:{}", l.file(), l.line()))); }));
    let reg = substrait_explain::extensions::examples::registry();
    for d in s.split("%%%\n") {
        println!("---- {}", d.replace('\n', "\n     "));
        let r = catch_unwind(AssertUnwindSafe(|| substrait_explain::parse_with_registry(d, &reg)));
        match r {
            Err(_) => println!("  => PANIC"),
            Ok(Err(e)) => println!("  => ERR {:?}", e.to_string().lines().next()),
            Ok(Ok(p)) => {
                let r = catch_unwind(AssertUnwindSafe(|| substrait_explain::format_with_registry(&p, &Default::default(), &reg)));
                match r { Err(_) => println!("  => FMT PANIC"), Ok((t, e)) => {
                    println!("  => OK\n{t}  errs={} {:?}", e.len(), e.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    let (vt, ve) = substrait_explain::format_with_registry(&p, &substrait_explain::OutputOptions::verbose(), &reg);
                    match catch_unwind(AssertUnwindSafe(|| substrait_explain::parse_with_registry(&vt, &reg))) {
                        Err(_) => println!("  VERBOSE {vt} errs={}\n  verbose reparse PANIC", ve.len()),
                        Ok(Err(e)) => println!("  VERBOSE {vt} errs={}\n verbose reparse ERR {e}", ve.len()),
                        Ok(Ok(q)) => println!("  verbose reparse equal={}", q == p),
                    }
                    match catch_unwind(AssertUnwindSafe(|| substrait_explain::parse_with_registry(&t, &reg))) {
                        Err(_) => println!("  reparse PANIC"),
                        Ok(Err(e)) => println!("  reparse ERR {e}"),
                        Ok(Ok(q)) => println!("  reparse equal={}", q == p),
                    }
                } }
            }
        }
    }
}
