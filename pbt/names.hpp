// The harness shares translation units with the library: keep its names apart from any the library has or gains.
// Included after the library's headers and before everything of the harness.
#pragma once
#define u64 vpb_u64
#define i64 vpb_i64
#define u128 vpb_u128
#define i128 vpb_i128
#define Kind vpb_Kind
#define FIN vpb_FIN
#define INF vpb_INF
#define NAN_ vpb_NAN_
#define ZERO vpb_ZERO
#define Dy vpb_Dy
#define Spec vpb_Spec
#define WITHNAN vpb_WITHNAN
#define WITHINF vpb_WITHINF
#define WITHNANINF vpb_WITHNANINF
#define Fmt vpb_Fmt
#define Fields vpb_Fields
#define FFmt vpb_FFmt
#define bits_f vpb_bits_f
#define bits_d vpb_bits_d
#define f_bits vpb_f_bits
#define d_bits vpb_d_bits
#define Fail vpb_Fail
#define Discard vpb_Discard
#define mix64 vpb_mix64
#define Src vpb_Src
#define strf vpb_strf
#define Exh vpb_Exh
#define Body vpb_Body
#define Check vpb_Check
#define BodyFn vpb_BodyFn
#define Low vpb_Low
#define Full vpb_Full
#define Info vpb_Info
#define Limits vpb_Limits
#define Consts vpb_Consts
#define HStep vpb_HStep
#define POOL vpb_POOL
#define HOp vpb_HOp
#define IPosit vpb_IPosit
#define PositImpl vpb_PositImpl
#define IUnp vpb_IUnp
#define ILay vpb_ILay
#define IConv vpb_IConv
#define IFix vpb_IFix
#define IInt vpb_IInt
#define IAny vpb_IAny
#define IHalf vpb_IHalf
#define ITab vpb_ITab
#define TabImpl vpb_TabImpl
#define TOther vpb_TOther
#define FieldT vpb_FieldT
#define TopT vpb_TopT
#define CastT vpb_CastT
#define Bits vpb_Bits
#define Lister vpb_Lister
#define IEigen vpb_IEigen
#define EigenImpl vpb_EigenImpl
#define UImpl vpb_UImpl
#define LImpl vpb_LImpl
#define CImpl vpb_CImpl
#define FImpl vpb_FImpl
#define IImpl vpb_IImpl
#define AImpl vpb_AImpl
#define HImpl vpb_HImpl
#define PFImpl vpb_PFImpl
#define w8 vpb_w8
#define w16 vpb_w16
#define w32 vpb_w32
#define w64 vpb_w64
#define tov vpb_tov
#define toh vpb_toh
#define clz64 vpb_clz64
#define u64_ vpb_u64_
#define i64_ vpb_i64_
#define f_get vpb_f_get
#define f_get2 vpb_f_get2
#define f_part vpb_f_part
#define f_top vpb_f_top
#define f_msb vpb_f_msb
#define f_lsb vpb_f_lsb
#define PutF vpb_PutF
#define cast1 vpb_cast1
#define castb vpb_castb
#define castab vpb_castab
#define casta vpb_casta
#define ILanes vpb_ILanes
#define Quiet vpb_Quiet
#define CCase vpb_CCase
#define g_cfgs vpb_g_cfgs
#define g_unps vpb_g_unps
#define g_lays vpb_g_lays
#define g_convs vpb_g_convs
#define g_fixs vpb_g_fixs
#define g_ints vpb_g_ints
#define g_anys vpb_g_anys
#define g_half vpb_g_half
#define g_tabs vpb_g_tabs
#define g_others vpb_g_others
#define g_bits vpb_g_bits
#define g_casts vpb_g_casts
#define g_listers vpb_g_listers
#define g_lanes vpb_g_lanes
#define g_eig vpb_g_eig
#define g_cases vpb_g_cases
