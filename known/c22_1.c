const char *s = "a\a\v?";
