// Sockets, pipes and select() for the code that runs in the world. What was sent stays in flight until the explorer
// delivers it. Static memory, part of every checkpoint.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vnet
{
const int NET0 = 900, NS = 40, CAP = 1024;
enum Kind { FREE = 0, PIPE_R, PIPE_W, LISTEN, SOCK };
enum Conn { C_NEW = 0, C_CONNECTING, C_UP, C_FAILED };
struct Sock
{
    int kind, conn, peer, port, err;
    bool open;    // the descriptor is open (of the harness' end: not closed by it)
    bool remote;  // end of the harness
    bool fin_sent, fin_flight, fin, rst;
    int in_n, n;  // bytes that can be read, bytes including those in flight
    int backlog[4], nb;
    char d[CAP];
};
struct State
{
    Sock s[NS];
    bool on;
    int snd_max;  // a send() takes at most that many bytes (0: any)
    int window;   // bytes on the way to a socket (0: CAP)
    int refuse;   // that many addresses refuse before one accepts
    int naddr;    // addresses a name has
    int acc_err;  // that many accept() calls fail with a connection waiting
    int gai;      // 0 nobody asks, 1 somebody waits for a name, 2 answered: ok, 3 answered: unknown
};
State& st();
void reset();
int remote_connect(int port);              // a connection of the harness to a listening socket; its end, or -1
void remote_send(int s, const void* d, int n); // puts it in flight
void deliver(int s, int n);                // n bytes that are in flight to s arrive (-1: all, and the end of the stream)
bool in_flight(int s);                     // something is
void kill(int s, bool rst);                // the connection of s breaks: both ends see an orderly end, or an error
void connected(int s, bool ok);            // ends a connect()
void resolved(bool ok);
int nconn();                               // number of ends that are connected
}
