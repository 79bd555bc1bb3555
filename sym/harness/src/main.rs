#![allow(clippy::missing_safety_doc)]
mod duplex;
mod errors;
mod hostile;
mod ids;
mod keep;
mod life;
mod many;
mod names;
mod peer;
mod recv;
mod rt;
mod send;
mod serve;
mod sim;
mod stream;
mod typed;
mod unix;
mod world;
mod wrap;

macro_rules! entries {
	($($name:ident => $f:path;)*) => {
		$( #[no_mangle] pub extern "C" fn $name() { $f(); } )*
		fn main() {
			let name = std::env::args().nth(1).unwrap_or_default();
			let table: &[(&str, extern "C" fn())] = &[$( (stringify!($name), $name), )*];
			for (n, f) in table {
				if *n == name {
					f();
					println!("DONE");
					return;
				}
			}
			eprintln!("no such entry: {name}");
			std::process::exit(3);
		}
	};
}

entries! {
	c01_encode => stream::codec_encode;
	c01_decode => stream::codec_decode;
	c01_constructors => stream::codec_constructors;
	c02_write_one => stream::write_one;
	c02_write_two => stream::write_two;
	c02_write_long => stream::write_long;
	c02_write_tcp => stream::write_tcp;
	c02_write_error => stream::write_error;
	c03_read_one => stream::read_one;
	c03_read_two => stream::read_two;
	c03_read_long => stream::read_long;
	c03_read_tcp => stream::read_tcp;
	c03_read_cancel => stream::read_cancel;
	c02_write_large => stream::write_large;
	c03_read_large => stream::read_large;
	c03_read_large_end => stream::read_large_end;
	c04_hostile => stream::read_hostile;
	c04_hostile_two => stream::read_hostile_two;
	c04_hostile_limit => stream::read_hostile_limit;
	c05_limit => stream::write_limit;
	c00_smoke => peer::smoke;
	c06_transfer => unix::transfer_one;
	c06_transfer_two => unix::transfer_two;
	c06_cancelled => unix::cancelled;
	c06_limits => unix::write_limits;
	c06_failures => unix::failures;
	c07_hostile => unix::hostile_any;
	c07_peer => unix::peer;
	c08_history => ids::history_plain;
	c08_jump => ids::history_jump;
	c08_jump_four => ids::history_jump_four;
	c08_block => ids::block;
	c08_exhausted => ids::exhausted;
	c11_sent_four => recv::sent_request_four;
	c11_sent_five => recv::sent_request_five;
	c11_sent_six => recv::sent_request_six;
	c11_sent_end => recv::sent_request_end;
	c11_received => recv::received_request_five;
	c11_peer => recv::peer_handle_five;
	c13_ends => life::connection_ends_whole;
	c13_ends_split => life::connection_ends_split;
	c13_close => life::local_close_any;
	c13_unread => life::connection_ends_unread_whole;
	c13_unread_split => life::connection_ends_unread_split;
	c13_whole => life::whole_handle;
	c13_half_closed => life::half_closed;
	c13_write_fails => life::write_fails;
	c13_stalled => life::local_close_stalled;
	c14_schedules => duplex::order_schedules;
	c14_schedules_two => duplex::order_schedules_two;
	c14_split => duplex::order_split;
	c14_two => duplex::order_two;
	c14_three => duplex::order_three;
	c14_narrow => duplex::order_narrow;
	c16_arrivals => life::lifetime_arrivals;
	c16_five => life::lifetime_five;
	c16_six => life::lifetime_six;
	c16_same_peer => life::same_peer;
	c23_completes => send::completes;
	c23_refused => send::refused;
	c23_fails => send::fails;
	c23_cancelled => send::cancelled;
	c23_concurrent_one => send::concurrent_one;
	c23_concurrent_two => send::concurrent_two;
	c23_concurrent_two_split => send::concurrent_two_split;
	c26_flood => duplex::flood_two;
	c26_flood_schedules => duplex::flood_schedules;
	c26_flood_deep => duplex::flood_deep;
	c14_split_deep => duplex::order_split_deep;
	c25_messages => hostile::messages_four;
	c25_drops => hostile::messages_drops;
	c25_drops_four => hostile::messages_drops_four;
	c25_unread => hostile::unread_three;
	c25_unread_four => hostile::unread_four;
	c25_bytes_eof => hostile::bytes_eof;
	c25_bytes_open => hostile::bytes_open;
	c25_bytes_two => hostile::bytes_two;
	c26_stalled => duplex::stalled;
	c09_route_two => peer::route_two;
	c09_route_three => peer::route_three;
	c09_route_respond => peer::route_respond;
	c10_race_two => peer::response_race_two;
	c10_race_two_each => peer::response_race_two_each;
	c10_race_three => peer::response_race_three;
	c10_race_split => peer::response_race_split;
	c09_kept => peer::route_kept;
	c10_given_up => peer::response_given_up;
	c10_given_up_split => peer::response_given_up_split;
	c14_large => duplex::large_bodies;
	c10_dropped => peer::response_dropped;
	c10_requester => peer::requester_closed;
	c12_unread => peer::unread_requests_three;
	c12_unread_four => peer::unread_requests_four;
	c12_unread_open => peer::unread_requests_open;
	c12_unread_open_two => peer::unread_requests_open_two;
	c12_unread_limit => peer::unread_requests_limit;
	c15_too_large_two => peer::too_large_two;
	c15_too_large_three => peer::too_large_three;
	c17_body => typed::error_body;
	c17_response => typed::error_response;
	c18_call => typed::client_call;
	c18_client_updates => typed::client_updates;
	c18_client_sends => typed::client_sends;
	c18_server => typed::server;
	c18_server_updates => typed::server_updates;
	c18_fails => typed::failing_sends;
	c18_enums => typed::message_enums;
	c13_seqpacket => unix::ends;
	c13_typed => typed::lifetime_three;
	c16_typed => typed::lifetime_four;
	c20_definition => typed::definition;
	c21_run => serve::run_unix;
	c21_run_tcp => serve::run_tcp;
	c21_run_schedules => serve::run_schedules;
	c21_accept => serve::accept_unix;
	c21_accept_tcp => serve::accept_tcp;
	c21_accept_seqpacket => names::accept_seqpacket;
	c22_bind_stream => names::bind_stream;
	c22_bind_seqpacket => names::bind_seqpacket;
	c22_bind_tcp => names::bind_tcp;
	c22_connect_unix => names::connect_unix;
	c22_connect_tcp => names::connect_tcp;
	c22_connect_seqpacket => names::connect_seqpacket;
	c05_limit_large => stream::limit_large;
	c06_large => unix::large;
	c07_large => unix::hostile_large;
	c17_large => typed::error_large;
	c18_many => typed::many_updates;
	c21_many => serve::many;
	c09_many => many::route;
	c09_many_rounds => many::rounds;
	c10_many => many::responders;
	c11_many => many::queued;
	c12_many => many::unread;
	c13_many => many::ends;
	c14_many => many::exchange;
	c15_many => many::too_large;
	c16_many => many::clones;
	c23_many => many::sends;
	c25_many => many::stray;
	c26_many_stalled => many::stalled;
	c26_many_flood => many::flood;
	c05_limit_huge => stream::write_limit_huge;
	c24_made => errors::made;
	c24_stream => errors::stream_transport;
	c24_unix => errors::unix_transport;
	c24_connection => errors::connection;
	c24_typed => errors::typed;
	c24_debug_typed => errors::debug_typed;
	c24_debug => errors::debug;
	c27_read => wrap::read;
	c27_write => wrap::write;
	c27_datagrams => wrap::datagrams;
	c27_own_transport => wrap::own_transport;
	c27_listeners => wrap::listeners;
	c27_own_listener => wrap::own_listener;
	c27_stream_made => wrap::stream_made;
	c27_unix_made => wrap::unix_made;
	c27_bodies => wrap::bodies;
	c27_spawned => wrap::spawned;
	c28_rounds => keep::rounds_one;
	c28_rounds_two => keep::rounds_two;
	c28_unread => keep::unread;
	c28_all => keep::all;
	c28_listener => keep::listener;
}
