/* the code's own tables (shown equal to the frozen ones by a separate table lemma) */
#define S_AmbePlusLtable AmbePlusLtable
#define S_AmbePlusVuv AmbePlusVuv
#define S_AmbePlusLmprbl AmbePlusLmprbl
#define S_AmbePlusDg AmbePlusDg
#define S_AmbePlusPRBA24 AmbePlusPRBA24
#define S_AmbePlusPRBA58 AmbePlusPRBA58
#define S_AmbePlusHOCb5 AmbePlusHOCb5
#define S_AmbePlusHOCb6 AmbePlusHOCb6
#define S_AmbePlusHOCb7 AmbePlusHOCb7
#define S_AmbePlusHOCb8 AmbePlusHOCb8
