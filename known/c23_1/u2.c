int unused;
