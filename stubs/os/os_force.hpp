// Replaces the calls that start and wait for processes by functions of the harness.
#pragma once
#include <err.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <system_error>

pid_t sx_fork();
int sx_execvp(const char *, char * const[]);
pid_t sx_waitpid(pid_t, int *, int);
void sx_exit(int);
FILE * sx_popen(const char *, const char *);
int sx_pclose(FILE *);
char * sx_fgets(char *, int, FILE *);
int sx_kill(pid_t, int);
int sx_killpg(pid_t, int);
int sx_sigtimedwait(const sigset_t *, siginfo_t *, const timespec *);
namespace std
{
using ::sx_exit;
using ::sx_fgets;
}  // namespace std
#define fork sx_fork
#define execvp sx_execvp
#define waitpid sx_waitpid
#define exit sx_exit
#define popen sx_popen
#define pclose sx_pclose
#define fgets sx_fgets
#define kill sx_kill
#define killpg sx_killpg
#define sigtimedwait sx_sigtimedwait
