// A stand-in for the window system, for nano_driver_sdl.
//
// The clock starts at 1 and moves only while the program sleeps.  Every
// picture that is shown is written to $NV_FRAMES:
//   time width height  and width * height colours, 32 bits each
// $NV_KEYS: at time t the keys in byte t mod length are down (bits: up, down,
// left, right, escape, space).  $NV_NOWIN: numbers of the windows that cannot
// be opened.  The user quits at time $NV_UNTIL, or when the program has asked
// for events very often without sleeping.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#define _SDL_main_h
#include <SDL.h>

static Uint32 now_ = 1;
static int idle_ = 0, wins_ = 0, polls_ = 0;
static Uint8 keys_[SDL_NUM_SCANCODES];

struct SDL_Window {
  SDL_Surface surf;
};

static long env(const char *n, long d) {
  const char *v = getenv(n);
  return v && *v ? atol(v) : d;
}

static bool listed(const char *n, int k) {
  const char *v = getenv(n);
  return v && (std::string(",") + v + ",").find("," + std::to_string(k) + ",") != std::string::npos;
}

extern "C" {

int SDL_Init(Uint32) { return 0; }
int SDL_InitSubSystem(Uint32) { return 0; }
void SDL_Quit(void) {}
void SDL_QuitSubSystem(Uint32) {}
const char *SDL_GetError(void) { return "stand-in"; }

Uint32 SDL_GetTicks(void) { return now_; }
Uint64 SDL_GetTicks64(void) { return now_; }
void SDL_Delay(Uint32 ms) {
  now_ += ms;
  idle_ = 0;
}

SDL_Window *SDL_CreateWindow(const char *, int, int, int w, int h, Uint32) {
  ++wins_;
  if (listed("NV_NOWIN", wins_) || w <= 0 || h <= 0 || (long long)w * h > (1 << 28)) return nullptr;
  SDL_Window *x = new SDL_Window;
  memset(&x->surf, 0, sizeof(x->surf));
  x->surf.w = w;
  x->surf.h = h;
  x->surf.pitch = w * 4;
  Uint32 *p = (Uint32 *)malloc(size_t(w) * h * 4);
  if (!p) return nullptr;
  for (size_t i = 0; i < size_t(w) * h; ++i) p[i] = 0x01010101;
  x->surf.pixels = p;
  return x;
}
void SDL_DestroyWindow(SDL_Window *x) {
  if (x) {
    free(x->surf.pixels);
    delete x;
  }
}
SDL_Surface *SDL_GetWindowSurface(SDL_Window *x) { return x ? &x->surf : nullptr; }
int SDL_LockSurface(SDL_Surface *) { return 0; }
void SDL_UnlockSurface(SDL_Surface *) {}

int SDL_UpdateWindowSurface(SDL_Window *x) {
  if (!x) return -1;
  if (FILE *f = fopen(getenv("NV_FRAMES"), "ab")) {
    const Uint32 head[3] = {now_, Uint32(x->surf.w), Uint32(x->surf.h)};
    fwrite(head, 4, 3, f);
    fwrite(x->surf.pixels, 4, size_t(x->surf.w) * x->surf.h, f);
    fclose(f);
  }
  return 0;
}

const Uint8 *SDL_GetKeyboardState(int *n) {
  static const int codes[6] = {SDL_SCANCODE_UP,    SDL_SCANCODE_DOWN,   SDL_SCANCODE_LEFT,
                               SDL_SCANCODE_RIGHT, SDL_SCANCODE_ESCAPE, SDL_SCANCODE_SPACE};
  const char *k = getenv("NV_KEYS");
  const size_t l = k ? strlen(k) / 2 : 0;
  int bits = 0;
  if (l) sscanf(k + 2 * (now_ % l), "%2x", &bits);
  for (int i = 0; i < 6; ++i) keys_[codes[i]] = (bits >> i) & 1;
  if (n) *n = SDL_NUM_SCANCODES;
  return keys_;
}
void SDL_PumpEvents(void) {}

int SDL_PollEvent(SDL_Event *e) {
  SDL_Event ev;
  memset(&ev, 0, sizeof(ev));
  if (now_ >= Uint32(env("NV_UNTIL", 1 << 30)) || idle_ > 4000) {
    ev.type = SDL_QUIT;
    if (e) *e = ev;
    return 1;
  }
  // now and then something that is of no interest
  if (++polls_ % 3 == 0) {
    ev.type = polls_ % 2 ? SDL_KEYDOWN : SDL_MOUSEMOTION;
    if (e) *e = ev;
    return 1;
  }
  ++idle_;
  return 0;
}
int SDL_WaitEventTimeout(SDL_Event *e, int ms) {
  if (SDL_PollEvent(e)) return 1;
  SDL_Delay(ms);
  return 0;
}
}
