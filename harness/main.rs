#![allow(unused, static_mut_refs)]
extern "C" { fn rt_init(); fn rt_finish() -> !; }
mod common; mod kv; mod lang; mod http; mod scale; #[path = "server.rs"] mod server_;
macro_rules! entries { ($($n:ident => $m:path),* $(,)?) => {
    $( #[no_mangle] #[inline(never)] pub extern "C" fn $n() { $m() } )*
    fn dispatch(n: &str) { match n { $( stringify!($n) => $n(), )* _ => { std::process::exit(3) } } }
} }
entries! { e_octets => http::octets, e_idle => server_::idle, e_slow => http::slow, e_exact => http::exact, e_taker => http::slow_taker, e_lapse => server_::lapse, e_pause => server_::slow, s_vec => scale::vectors, s_map => scale::maps, s_keys => scale::keys, s_float => scale::floats, e_ident => lang::idents, s_fair => scale::fair, s_draws => scale::draws, s_req => scale::request, s_text => scale::text, s_out => scale::response, s_body => scale::body, s_split => scale::split_text, e_many => server_::many, e_often => server_::often, e_near => http::near, e_prog => server_::programs, e_bind => server_::bind, e_hist => server_::history, e_race => server_::race, e_broken => server_::broken, e_down => server_::down, e_access => server_::access, e_reclaim => server_::reclaim, e_longhead => http::long_head, e_edit => lang::edited, e_who => server_::who, e_kinds => server_::kinds, e_layout => server_::layout, e_bulk => server_::bulk, e_crowd => server_::crowd, e_seg => http::segments, e_trickle => http::trickle, e_bytes => http::bytes, e_headers => http::headers, e_accept => http::accept, e_length => http::length, e_spelled => http::spelled, s_long => scale::long, s_rep => scale::repeat, e_lapsed => kv::lapsed, e_stale => server_::stale, e_uni => lang::unis, e_huge => http::huge, e_query => http::query, e_bodies => http::bodies, e_respond => http::respond, e_partial => http::partial, e_kv => kv::history, e_any => kv::any, e_expiry => kv::expiry, e_straddle => kv::straddle, e_purge => kv::purge, e_vec => kv::vectors, e_map => kv::maps, e_types => kv::types, e_life => kv::lifetimes, e_req => kv::requests, e_total => lang::total, e_odd => lang::total_odd, e_ints => lang::ints, e_strs => lang::strings, e_floats => lang::floats, e_gram => lang::grammar, e_seq => lang::sequences }
fn main() {
    let n: String = std::env::args().nth(1).unwrap_or_default();
    unsafe { rt_init(); dispatch(&n); rt_finish() }
}
