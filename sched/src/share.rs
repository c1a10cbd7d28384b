//! Whether the public types and the bound functions may be used from several threads at all.
use std::marker::PhantomData;
use xprs::{xprs_fn, BindError, Context, ErrorKind, EvalError, Function, ParseError, Parser, Symbol, Xprs};

struct Of<T>(PhantomData<T>);

trait Otherwise {
    fn shared(&self) -> bool {
        false
    }
}

impl<T> Otherwise for Of<T> {}

impl<T: Send + Sync> Of<T> {
    fn shared(&self) -> bool {
        true
    }
}

const fn of<T>(_: &T) -> Of<T> {
    Of(PhantomData)
}

pub const NAMES: [&str; 23] = [
    "Context", "Symbol", "Parser", "Xprs", "Function", "ParseError", "ErrorKind", "EvalError", "BindError", "bind", "bind2", "bind3",
    "bind4", "bind5", "bind6", "bind7", "bind8", "bind9", "bind_n of 0", "bind_n of 3", "bind_n_runtime", "xprs_fn", "a function from a bound function",
];

pub fn check(data: &str) -> Result<(), String> {
    let x = || Parser::default().parse("2+3!").expect("2+3!");
    let no = |_: BindError| "doesn't bind".to_owned();
    let shared = match data {
        "Context" => Of::<Context<'static>>(PhantomData).shared(),
        "Symbol" => Of::<Symbol>(PhantomData).shared(),
        "Parser" => Of::<Parser<'static>>(PhantomData).shared(),
        "Xprs" => Of::<Xprs<'static>>(PhantomData).shared(),
        "Function" => Of::<Function>(PhantomData).shared(),
        "ParseError" => Of::<ParseError>(PhantomData).shared(),
        "ErrorKind" => Of::<ErrorKind>(PhantomData).shared(),
        "EvalError" => Of::<EvalError>(PhantomData).shared(),
        "BindError" => Of::<BindError>(PhantomData).shared(),
        "bind" => of(&x().bind("a").map_err(no)?).shared(),
        "bind2" => of(&x().bind2("a", "b").map_err(no)?).shared(),
        "bind3" => of(&x().bind3("a", "b", "c").map_err(no)?).shared(),
        "bind4" => of(&x().bind4("a", "b", "c", "d").map_err(no)?).shared(),
        "bind5" => of(&x().bind5("a", "b", "c", "d", "e1").map_err(no)?).shared(),
        "bind6" => of(&x().bind6("a", "b", "c", "d", "e1", "f").map_err(no)?).shared(),
        "bind7" => of(&x().bind7("a", "b", "c", "d", "e1", "f", "g").map_err(no)?).shared(),
        "bind8" => of(&x().bind8("a", "b", "c", "d", "e1", "f", "g", "h").map_err(no)?).shared(),
        "bind9" => of(&x().bind9("a", "b", "c", "d", "e1", "f", "g", "h", "i").map_err(no)?).shared(),
        "bind_n of 0" => of(&x().bind_n([]).map_err(no)?).shared(),
        "bind_n of 3" => of(&x().bind_n(["a", "b", "c"]).map_err(no)?).shared(),
        "bind_n_runtime" => of(&x().bind_n_runtime(&["a", "b", "c"]).map_err(no)?).shared(),
        "xprs_fn" => of(&xprs_fn!("cos", f64::cos, 1)).shared(),
        _ => {
            let f = Function::new_dyn("f", |a| a.len() as f64, None);
            of(&Parser::new_with_ctx(Context::default().with_fn(f)).parse("f(x)").map_err(|e| e.to_string())?).shared()
        }
    };
    if shared {
        Ok(())
    } else {
        Err(format!("{data}: can't be shared between threads (not Send and Sync)"))
    }
}
