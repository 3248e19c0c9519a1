/* POSIX host: nothing needed. */
