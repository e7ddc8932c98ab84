// What io_driver runs: reports what it was given.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
int main(int argc, char **argv) {
  if (const char *s = getenv("VERIF_IO_DIE"))
    if (*s)
      abort();
  FILE *f = fopen(getenv("VERIF_IO_REPORT"), "w");
  auto bytes = [&](const char *p, size_t n) {
    fputc('[', f);
    for (size_t k = 0; k < n; ++k)
      fprintf(f, "%s%d", k ? "," : "", (unsigned char)p[k]);
    fputc(']', f);
  };
  fputs("{\"argv\":[", f);
  for (int k = 0; k < argc; ++k) {
    if (k)
      fputc(',', f);
    bytes(argv[k], strlen(argv[k]));
  }
  fputs("],\"stdin\":", f);
  std::string in;
  if (!*getenv("VERIF_IO_NOIN"))
    for (int c; (c = getchar()) != EOF;)
      in.push_back(c);
  bytes(in.data(), in.size());
  fputs("}", f);
  fclose(f);
  printf("O%d", argc);
  fprintf(stderr, "E%d", argc);
  return atoi(getenv("VERIF_IO_CODE"));
}
