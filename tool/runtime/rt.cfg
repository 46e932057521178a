entry __write_.*|rt_.*|__bi_setup
