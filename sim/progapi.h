#pragma once
void sim_init_rand();
void sim_install_mem_hooks();
extern __thread int g_nomem;
