L"" "\xc8\x80"
