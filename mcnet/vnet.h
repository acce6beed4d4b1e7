#pragma once
// Scenario-side controls of the virtual network.
void vnet_max_read(int n);         // recv() returns at most n bytes per call (0 = unlimited)
void vnet_send_cap(int n);         // at most n unread bytes per stream: send() is partial, then EAGAIN (0 = unlimited)
void vnet_eintr(int n);            // the next n waits (epoll_wait, select) are interrupted by a signal
int vnet_open_fds();
int vnet_bad_fd_ops();             // operations on closed descriptors so far
void vnet_reset_peer(int fd);      // close fd abortively: the other side sees ECONNRESET
int vnet_pending(int fd);          // unread bytes queued on fd
bool vnet_eof(int fd);
