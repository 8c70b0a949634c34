//! mc <PROPERTY> [--tier quick|thorough]   decide one property
//! mc replay <file>                        re-run a recorded violation

#[macro_use]
mod engine;
mod alloc;
mod conn;
mod drv;
mod futex;
mod io;
mod p_agent;
mod p_codec;
mod p_conn;
mod p_frag;
mod p_job;
mod p_misc;
mod p_more;
mod p_stream;
mod p_varint;
mod run;
mod svc;
mod trace;
mod wire;

use run::Run;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn dispatch(r: &mut Run) {
    match r.prop.as_str() {
        "C01" => p_varint::c01(r),
        "C02" => p_codec::c02(r),
        "C03" => p_codec::c03(r),
        "C04" => p_codec::c04(r),
        "C05" => p_codec::c05(r),
        "C06" => p_stream::c06(r),
        "C07" => p_stream::c07(r),
        "C08" => p_stream::c08(r),
        "C09" => p_stream::c09(r),
        "C10" => p_stream::c10(r),
        "C11" => p_frag::c11(r),
        "C12" => p_frag::c12(r),
        "C13" => p_job::c13(r),
        "C14" => p_job::c14(r),
        "C15" => p_job::c15(r),
        "C16" => p_job::c16(r),
        "C17" => p_conn::c17(r),
        "C18" => p_conn::c18(r),
        "C19" => p_conn::c19(r),
        "C20" => p_conn::c20(r),
        "C21" => p_conn::c21(r),
        "C22" => p_conn::c22(r),
        "C23" => p_conn::c23(r),
        "C24" => p_conn::c24(r),
        "C25" => p_conn::c25(r),
        "C26" => p_agent::c26(r),
        "C27" => p_agent::c27(r),
        "C28" => p_agent::c28(r),
        "C29" => p_misc::c29(r),
        "C30" => p_misc::c30(r),
        "C31" => p_conn::c31(r),
        "C32" => p_more::c32(r),
        "C33" => p_more::c33(r),
        "C34" => p_agent::c34(r),
        "C35" => p_conn::c35(r),
        "C36" => p_conn::c36(r),
        "C37" => p_agent::c37(r),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        verif_sched::record_panic(format!("{m} at {l}"));
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("PANIC {m} at {l}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if let Some(i) = a.iter().position(|x| x == "--tier") {
        tier = a.get(i + 1).cloned().unwrap_or(tier);
    }
    match a.first().map(|s| s.as_str()) {
        Some("replay") => {
            let f = a.get(1).expect("replay file");
            let mut r = Run::from_replay(f);
            dispatch(&mut r);
            r.finish_replay()
        }
        Some(p) => {
            let mut r = Run::new(p, &tier);
            if let Some(i) = a.iter().position(|x| x == "--only") {
                r.only = a.get(i + 1).cloned();
            }
            dispatch(&mut r);
            r.finish()
        }
        None => {
            eprintln!("usage: mc <property> [--tier quick|thorough] | mc replay <file>");
            std::process::exit(2)
        }
    }
}
