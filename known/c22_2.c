double d = 1e-20;
