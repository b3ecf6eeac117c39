#define GIT_HEAD_ID "verif"
