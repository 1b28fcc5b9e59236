extern char const *Version;
extern void print_version(const char *command_name);
