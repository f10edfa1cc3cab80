// What the build configures, as values the analysis knows nothing about.
extern const char* const iwyu_resource_binary_path_configured;
extern const char* const iwyu_resource_dir_configured;
