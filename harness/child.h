#pragma once
// runs a body in a forked child that exits normally (static destructors included); results come back in shared memory
#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdlib.h>
#include <signal.h>
#include <sys/prctl.h>
#include <new>

template<typename TShared>
struct ChildRun
{
	TShared* shared;
	int status = 0;
	ChildRun()
	{
		void* p = mmap(nullptr, sizeof(TShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		shared = new (p) TShared();
	}
	ChildRun(const ChildRun&) = delete;
	~ChildRun() { munmap(shared, sizeof(TShared)); }
	template<typename F> void Run(F&& body)
	{
		pid_t pid = fork();
		if (pid == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			alarm(60);
			int r = 0;
			try { r = body(*shared); } catch (...) { r = 99; }
			exit(r);
		}
		waitpid(pid, &status, 0);
	}
	bool Exited() const { return WIFEXITED(status); }
	int Code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status); }
};
