/* the code's own tables (shown equal to the frozen ones by a separate table lemma) */
#define S_AmbeW0table AmbeW0table
#define S_AmbeLtable AmbeLtable
#define S_AmbeVuv AmbeVuv
#define S_AmbeLmprbl AmbeLmprbl
#define S_AmbeDg AmbeDg
#define S_AmbePRBA24 AmbePRBA24
#define S_AmbePRBA58 AmbePRBA58
#define S_AmbeHOCb5 AmbeHOCb5
#define S_AmbeHOCb6 AmbeHOCb6
#define S_AmbeHOCb7 AmbeHOCb7
#define S_AmbeHOCb8 AmbeHOCb8
