// Internet sockets of the code under test become local ones of this process; sending can be made to fall short or fail.
#ifndef VNET_H
#define VNET_H
#include <stddef.h>
#include <sys/types.h>
extern int  (*vn_txfault)(int fd, size_t n, size_t *allow);             // an errno to fail with, or 0 and how much may go
extern void (*vn_wire)(int fd, const void *b, size_t n, ssize_t r, int err);   // what became of an attempt to send
int vn_port(int port);                                                  // the peer's side: connect to this port, non-blocking
int vn_listen(int port);                                                // the peer's side: be the server
int vn_accept(int sd);                                                  // -1 when there is nobody
ssize_t vn_put(int fd, const void *b, size_t n);                        // the peer's side: real calls, no faults, not logged
ssize_t vn_some(int fd, const void *b, size_t n);                       // the same, as much as there is room for
ssize_t vn_get(int fd, void *b, size_t n);
#endif
