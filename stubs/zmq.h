/* Stand-in for libzmq's public header (not installed here): declarations only, for type-checking. */
#pragma once
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct zmq_msg_t { unsigned char _[64]; } zmq_msg_t;
typedef void(zmq_free_fn)(void *data_, void *hint_);
typedef struct zmq_pollitem_t { void *socket; int fd; short events; short revents; } zmq_pollitem_t;
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_POLLERR 4
#define ZMQ_PAIR 0
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_REQ 3
#define ZMQ_REP 4
#define ZMQ_DEALER 5
#define ZMQ_ROUTER 6
#define ZMQ_PULL 7
#define ZMQ_PUSH 8
#define ZMQ_XPUB 9
#define ZMQ_XSUB 10
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_XPUB_VERBOSE 40
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2
#define ZMQ_IO_THREADS 1
int zmq_errno(void);
const char *zmq_strerror(int errnum_);
void *zmq_ctx_new(void);
int zmq_ctx_term(void *context_);
int zmq_ctx_set(void *context_, int option_, int optval_);
int zmq_msg_init(zmq_msg_t *msg_);
int zmq_msg_init_data(zmq_msg_t *msg_, void *data_, size_t size_, zmq_free_fn *ffn_, void *hint_);
int zmq_msg_send(zmq_msg_t *msg_, void *s_, int flags_);
int zmq_msg_recv(zmq_msg_t *msg_, void *s_, int flags_);
int zmq_msg_close(zmq_msg_t *msg_);
int zmq_msg_move(zmq_msg_t *dest_, zmq_msg_t *src_);
void *zmq_msg_data(zmq_msg_t *msg_);
size_t zmq_msg_size(const zmq_msg_t *msg_);
void *zmq_socket(void *, int type_);
int zmq_close(void *s_);
int zmq_setsockopt(void *s_, int option_, const void *optval_, size_t optvallen_);
int zmq_getsockopt(void *s_, int option_, void *optval_, size_t *optvallen_);
int zmq_bind(void *s_, const char *addr_);
int zmq_connect(void *s_, const char *addr_);
int zmq_disconnect(void *s_, const char *addr_);
int zmq_poll(zmq_pollitem_t *items_, int nitems_, long timeout_);
#ifdef __cplusplus
}
#endif
