// resolves irc.chat.twitch.tv to the loopback address
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netdb.h>
#include <stdio.h>
#include <string.h>
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
  if (node && strcmp(node, "irc.chat.twitch.tv") == 0) node = "127.0.0.1";
  return real(node, service, hints, res);
}
