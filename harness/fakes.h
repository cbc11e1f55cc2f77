// Modelled sockets in place of the real ones, for code that names them.
#pragma once
#include "conn.h"
namespace abc {
	template <typename L> struct fake_server : Srv { template <typename F> fake_server(F, L*) {} };
	template <typename L> using fake_client = Cli;
}
#define tcp_server_socket fake_server
#define tcp_client_socket fake_client
