#include <monotone_runtime.h>
#include <monotone_lib.h>
#include <monotone.h>
#include "env.h"
extern void env_mkdir(const char*);
void mse_main(void)
{
	monotone_t* env = monotone_init();
	mse_note("init", 1);
	int rc = monotone_open(env, "/db");
	mse_note("open", rc);
	if (rc == -1) mse_note(monotone_error(env));
	for (int i = 0; i < 3; i++) {
		monotone_event_t ev; memset(&ev, 0, sizeof ev);
		ev.id = mse_in(0, 10, "id"); ev.value = "abc"; ev.value_size = 3;
		rc = monotone_write(env, &ev, 1);
		mse_note("write", rc);
	}
	mse_reach("done");
}
