/* the code's own tables (shown equal to the frozen ones by a separate table lemma) */
#define S_quantstep quantstep
#define S_standdev standdev
#define S_B2 B2
#define S_ba ba
#define S_hoba hoba
#define S_bo bo
#define S_ImbeJi ImbeJi
