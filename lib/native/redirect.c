/* Sends every connection of the program that this is preloaded into to 127.0.0.1:$VH_PORT, so that
   nothing it does can reach a real server. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <string.h>

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    return real("127.0.0.1", service, hints, res);
}

int connect(int fd, const struct sockaddr *a, socklen_t n)
{
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "connect");
    if (a->sa_family == AF_INET) {
        const char *port = getenv("VH_PORT");
        struct sockaddr_in b;
        if (!port) { errno = ENETUNREACH; return -1; }
        memset(&b, 0, sizeof b);
        b.sin_family = AF_INET;
        b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        b.sin_port = htons((unsigned short)atoi(port));
        return real(fd, (struct sockaddr *)&b, sizeof b);
    }
    if (a->sa_family == AF_INET6) { errno = ENETUNREACH; return -1; }
    return real(fd, a, n);
}
