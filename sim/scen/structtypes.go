// Code generated for the struct world: recursive types nobody has used yet. DO NOT EDIT.

package scen

import (
	"reflect"

	"github.com/codeallergy/value"
)

// rec9 refers to itself and, through peer9, back to itself.
type rec9[T any] struct {
	Kids []*rec9[T]     `tag:"12"`
	Num  value.Number   `tag:"3"`
	Next *rec9[T]       `tag:"-1"`
	Peer *peer9[T]      `tag:"7"`
	Many []value.String `tag:"200" repeated:"true"`
}

type peer9[T any] struct {
	Val  value.Value `tag:"1"`
	Reps []*rec9[T]  `tag:"4" repeated:"true"`
	Back *rec9[T]    `tag:"2"`
	List value.List  `tag:"70000"`
	Alts []*peer9[T] `tag:"3"`
}

// good9 is valid and is referred to by bad types; bad9 and worse9 refer to each
// other, and bad9 has an invalid field.
type good9[T any] struct {
	Str  value.String `tag:"2"`
	Self *good9[T]    `tag:"1"`
}

type bad9[T any] struct {
	Good  *good9[T]  `tag:"1"`
	Worse *worse9[T] `tag:"2"`
	Count int        `tag:"3"`
}

type worse9[T any] struct {
	Str  value.String `tag:"1"`
	Bad  *bad9[T]     `tag:"2"`
	Good *good9[T]    `tag:"3"`
}

// The three twins are different types, and one is invalid, but their names, as
// reflection tells them, are the same.
func twinA9[T any]() reflect.Type {
	type twin9 struct {
		Str  value.String `tag:"3"`
		Num  value.Number `tag:"1"`
		Next *twin9       `tag:"2"`
	}
	return reflect.TypeOf(twin9{})
}

func twinB9[T any]() reflect.Type {
	type twin9 struct {
		Strs []value.String `tag:"1" repeated:"true"`
		Str  value.String   `tag:"2"`
		Kids []*twin9       `tag:"3"`
	}
	return reflect.TypeOf(twin9{})
}

func twinC9[T any]() reflect.Type {
	type twin9 struct {
		Str  value.String `tag:"1"`
		Size int          `tag:"2"`
	}
	return reflect.TypeOf(twin9{})
}

type types9set [8]reflect.Type

func types9[T any]() types9set {
	return types9set{reflect.TypeOf(rec9[T]{}), reflect.TypeOf(peer9[T]{}), reflect.TypeOf(good9[T]{}), reflect.TypeOf(bad9[T]{}), reflect.TypeOf(worse9[T]{}), twinA9[T](), twinB9[T](), twinC9[T]()}
}

var static9 = []func() types9set{
	types9[[1]int8],
	types9[[2]int8],
	types9[[3]int8],
	types9[[4]int8],
	types9[[5]int8],
	types9[[6]int8],
	types9[[7]int8],
	types9[[8]int8],
	types9[[9]int8],
	types9[[10]int8],
	types9[[11]int8],
	types9[[12]int8],
	types9[[13]int8],
	types9[[14]int8],
	types9[[15]int8],
	types9[[16]int8],
	types9[[17]int8],
	types9[[18]int8],
	types9[[19]int8],
	types9[[20]int8],
	types9[[21]int8],
	types9[[22]int8],
	types9[[23]int8],
	types9[[24]int8],
	types9[[25]int8],
	types9[[26]int8],
	types9[[27]int8],
	types9[[28]int8],
	types9[[29]int8],
	types9[[30]int8],
	types9[[31]int8],
	types9[[32]int8],
	types9[[33]int8],
	types9[[34]int8],
	types9[[35]int8],
	types9[[36]int8],
	types9[[37]int8],
	types9[[38]int8],
	types9[[39]int8],
	types9[[40]int8],
	types9[[41]int8],
	types9[[42]int8],
	types9[[43]int8],
	types9[[44]int8],
	types9[[45]int8],
	types9[[46]int8],
	types9[[47]int8],
	types9[[48]int8],
	types9[[49]int8],
	types9[[50]int8],
	types9[[51]int8],
	types9[[52]int8],
	types9[[53]int8],
	types9[[54]int8],
	types9[[55]int8],
	types9[[56]int8],
	types9[[57]int8],
	types9[[58]int8],
	types9[[59]int8],
	types9[[60]int8],
	types9[[61]int8],
	types9[[62]int8],
	types9[[63]int8],
	types9[[64]int8],
	types9[[65]int8],
	types9[[66]int8],
	types9[[67]int8],
	types9[[68]int8],
	types9[[69]int8],
	types9[[70]int8],
	types9[[71]int8],
	types9[[72]int8],
	types9[[73]int8],
	types9[[74]int8],
	types9[[75]int8],
	types9[[76]int8],
	types9[[77]int8],
	types9[[78]int8],
	types9[[79]int8],
	types9[[80]int8],
	types9[[81]int8],
	types9[[82]int8],
	types9[[83]int8],
	types9[[84]int8],
	types9[[85]int8],
	types9[[86]int8],
	types9[[87]int8],
	types9[[88]int8],
	types9[[89]int8],
	types9[[90]int8],
	types9[[91]int8],
	types9[[92]int8],
	types9[[93]int8],
	types9[[94]int8],
	types9[[95]int8],
	types9[[96]int8],
	types9[[97]int8],
	types9[[98]int8],
	types9[[99]int8],
	types9[[100]int8],
	types9[[101]int8],
	types9[[102]int8],
	types9[[103]int8],
	types9[[104]int8],
	types9[[105]int8],
	types9[[106]int8],
	types9[[107]int8],
	types9[[108]int8],
	types9[[109]int8],
	types9[[110]int8],
	types9[[111]int8],
	types9[[112]int8],
	types9[[113]int8],
	types9[[114]int8],
	types9[[115]int8],
	types9[[116]int8],
	types9[[117]int8],
	types9[[118]int8],
	types9[[119]int8],
	types9[[120]int8],
	types9[[121]int8],
	types9[[122]int8],
	types9[[123]int8],
	types9[[124]int8],
	types9[[125]int8],
	types9[[126]int8],
	types9[[127]int8],
	types9[[128]int8],
	types9[[129]int8],
	types9[[130]int8],
	types9[[131]int8],
	types9[[132]int8],
	types9[[133]int8],
	types9[[134]int8],
	types9[[135]int8],
	types9[[136]int8],
	types9[[137]int8],
	types9[[138]int8],
	types9[[139]int8],
	types9[[140]int8],
	types9[[141]int8],
	types9[[142]int8],
	types9[[143]int8],
	types9[[144]int8],
	types9[[145]int8],
	types9[[146]int8],
	types9[[147]int8],
	types9[[148]int8],
	types9[[149]int8],
	types9[[150]int8],
	types9[[151]int8],
	types9[[152]int8],
	types9[[153]int8],
	types9[[154]int8],
	types9[[155]int8],
	types9[[156]int8],
	types9[[157]int8],
	types9[[158]int8],
	types9[[159]int8],
	types9[[160]int8],
	types9[[161]int8],
	types9[[162]int8],
	types9[[163]int8],
	types9[[164]int8],
	types9[[165]int8],
	types9[[166]int8],
	types9[[167]int8],
	types9[[168]int8],
	types9[[169]int8],
	types9[[170]int8],
	types9[[171]int8],
	types9[[172]int8],
	types9[[173]int8],
	types9[[174]int8],
	types9[[175]int8],
	types9[[176]int8],
	types9[[177]int8],
	types9[[178]int8],
	types9[[179]int8],
	types9[[180]int8],
	types9[[181]int8],
	types9[[182]int8],
	types9[[183]int8],
	types9[[184]int8],
	types9[[185]int8],
	types9[[186]int8],
	types9[[187]int8],
	types9[[188]int8],
	types9[[189]int8],
	types9[[190]int8],
	types9[[191]int8],
	types9[[192]int8],
	types9[[193]int8],
	types9[[194]int8],
	types9[[195]int8],
	types9[[196]int8],
	types9[[197]int8],
	types9[[198]int8],
	types9[[199]int8],
	types9[[200]int8],
	types9[[201]int8],
	types9[[202]int8],
	types9[[203]int8],
	types9[[204]int8],
	types9[[205]int8],
	types9[[206]int8],
	types9[[207]int8],
	types9[[208]int8],
	types9[[209]int8],
	types9[[210]int8],
	types9[[211]int8],
	types9[[212]int8],
	types9[[213]int8],
	types9[[214]int8],
	types9[[215]int8],
	types9[[216]int8],
	types9[[217]int8],
	types9[[218]int8],
	types9[[219]int8],
	types9[[220]int8],
	types9[[221]int8],
	types9[[222]int8],
	types9[[223]int8],
	types9[[224]int8],
	types9[[225]int8],
	types9[[226]int8],
	types9[[227]int8],
	types9[[228]int8],
	types9[[229]int8],
	types9[[230]int8],
	types9[[231]int8],
	types9[[232]int8],
	types9[[233]int8],
	types9[[234]int8],
	types9[[235]int8],
	types9[[236]int8],
	types9[[237]int8],
	types9[[238]int8],
	types9[[239]int8],
	types9[[240]int8],
	types9[[241]int8],
	types9[[242]int8],
	types9[[243]int8],
	types9[[244]int8],
	types9[[245]int8],
	types9[[246]int8],
	types9[[247]int8],
	types9[[248]int8],
	types9[[249]int8],
	types9[[250]int8],
	types9[[251]int8],
	types9[[252]int8],
	types9[[253]int8],
	types9[[254]int8],
	types9[[255]int8],
	types9[[256]int8],
	types9[[257]int8],
	types9[[258]int8],
	types9[[259]int8],
	types9[[260]int8],
	types9[[261]int8],
	types9[[262]int8],
	types9[[263]int8],
	types9[[264]int8],
	types9[[265]int8],
	types9[[266]int8],
	types9[[267]int8],
	types9[[268]int8],
	types9[[269]int8],
	types9[[270]int8],
	types9[[271]int8],
	types9[[272]int8],
	types9[[273]int8],
	types9[[274]int8],
	types9[[275]int8],
	types9[[276]int8],
	types9[[277]int8],
	types9[[278]int8],
	types9[[279]int8],
	types9[[280]int8],
	types9[[281]int8],
	types9[[282]int8],
	types9[[283]int8],
	types9[[284]int8],
	types9[[285]int8],
	types9[[286]int8],
	types9[[287]int8],
	types9[[288]int8],
	types9[[289]int8],
	types9[[290]int8],
	types9[[291]int8],
	types9[[292]int8],
	types9[[293]int8],
	types9[[294]int8],
	types9[[295]int8],
	types9[[296]int8],
	types9[[297]int8],
	types9[[298]int8],
	types9[[299]int8],
	types9[[300]int8],
	types9[[301]int8],
	types9[[302]int8],
	types9[[303]int8],
	types9[[304]int8],
	types9[[305]int8],
	types9[[306]int8],
	types9[[307]int8],
	types9[[308]int8],
	types9[[309]int8],
	types9[[310]int8],
	types9[[311]int8],
	types9[[312]int8],
	types9[[313]int8],
	types9[[314]int8],
	types9[[315]int8],
	types9[[316]int8],
	types9[[317]int8],
	types9[[318]int8],
	types9[[319]int8],
	types9[[320]int8],
	types9[[321]int8],
	types9[[322]int8],
	types9[[323]int8],
	types9[[324]int8],
	types9[[325]int8],
	types9[[326]int8],
	types9[[327]int8],
	types9[[328]int8],
	types9[[329]int8],
	types9[[330]int8],
	types9[[331]int8],
	types9[[332]int8],
	types9[[333]int8],
	types9[[334]int8],
	types9[[335]int8],
	types9[[336]int8],
	types9[[337]int8],
	types9[[338]int8],
	types9[[339]int8],
	types9[[340]int8],
	types9[[341]int8],
	types9[[342]int8],
	types9[[343]int8],
	types9[[344]int8],
	types9[[345]int8],
	types9[[346]int8],
	types9[[347]int8],
	types9[[348]int8],
	types9[[349]int8],
	types9[[350]int8],
	types9[[351]int8],
	types9[[352]int8],
	types9[[353]int8],
	types9[[354]int8],
	types9[[355]int8],
	types9[[356]int8],
	types9[[357]int8],
	types9[[358]int8],
	types9[[359]int8],
	types9[[360]int8],
	types9[[361]int8],
	types9[[362]int8],
	types9[[363]int8],
	types9[[364]int8],
	types9[[365]int8],
	types9[[366]int8],
	types9[[367]int8],
	types9[[368]int8],
	types9[[369]int8],
	types9[[370]int8],
	types9[[371]int8],
	types9[[372]int8],
	types9[[373]int8],
	types9[[374]int8],
	types9[[375]int8],
	types9[[376]int8],
	types9[[377]int8],
	types9[[378]int8],
	types9[[379]int8],
	types9[[380]int8],
	types9[[381]int8],
	types9[[382]int8],
	types9[[383]int8],
	types9[[384]int8],
	types9[[385]int8],
	types9[[386]int8],
	types9[[387]int8],
	types9[[388]int8],
	types9[[389]int8],
	types9[[390]int8],
	types9[[391]int8],
	types9[[392]int8],
	types9[[393]int8],
	types9[[394]int8],
	types9[[395]int8],
	types9[[396]int8],
	types9[[397]int8],
	types9[[398]int8],
	types9[[399]int8],
	types9[[400]int8],
	types9[[401]int8],
	types9[[402]int8],
	types9[[403]int8],
	types9[[404]int8],
	types9[[405]int8],
	types9[[406]int8],
	types9[[407]int8],
	types9[[408]int8],
	types9[[409]int8],
	types9[[410]int8],
	types9[[411]int8],
	types9[[412]int8],
	types9[[413]int8],
	types9[[414]int8],
	types9[[415]int8],
	types9[[416]int8],
	types9[[417]int8],
	types9[[418]int8],
	types9[[419]int8],
	types9[[420]int8],
	types9[[421]int8],
	types9[[422]int8],
	types9[[423]int8],
	types9[[424]int8],
	types9[[425]int8],
	types9[[426]int8],
	types9[[427]int8],
	types9[[428]int8],
	types9[[429]int8],
	types9[[430]int8],
	types9[[431]int8],
	types9[[432]int8],
	types9[[433]int8],
	types9[[434]int8],
	types9[[435]int8],
	types9[[436]int8],
	types9[[437]int8],
	types9[[438]int8],
	types9[[439]int8],
	types9[[440]int8],
	types9[[441]int8],
	types9[[442]int8],
	types9[[443]int8],
	types9[[444]int8],
	types9[[445]int8],
	types9[[446]int8],
	types9[[447]int8],
	types9[[448]int8],
	types9[[449]int8],
	types9[[450]int8],
	types9[[451]int8],
	types9[[452]int8],
	types9[[453]int8],
	types9[[454]int8],
	types9[[455]int8],
	types9[[456]int8],
	types9[[457]int8],
	types9[[458]int8],
	types9[[459]int8],
	types9[[460]int8],
	types9[[461]int8],
	types9[[462]int8],
	types9[[463]int8],
	types9[[464]int8],
	types9[[465]int8],
	types9[[466]int8],
	types9[[467]int8],
	types9[[468]int8],
	types9[[469]int8],
	types9[[470]int8],
	types9[[471]int8],
	types9[[472]int8],
	types9[[473]int8],
	types9[[474]int8],
	types9[[475]int8],
	types9[[476]int8],
	types9[[477]int8],
	types9[[478]int8],
	types9[[479]int8],
	types9[[480]int8],
	types9[[481]int8],
	types9[[482]int8],
	types9[[483]int8],
	types9[[484]int8],
	types9[[485]int8],
	types9[[486]int8],
	types9[[487]int8],
	types9[[488]int8],
	types9[[489]int8],
	types9[[490]int8],
	types9[[491]int8],
	types9[[492]int8],
	types9[[493]int8],
	types9[[494]int8],
	types9[[495]int8],
	types9[[496]int8],
	types9[[497]int8],
	types9[[498]int8],
	types9[[499]int8],
	types9[[500]int8],
	types9[[501]int8],
	types9[[502]int8],
	types9[[503]int8],
	types9[[504]int8],
	types9[[505]int8],
	types9[[506]int8],
	types9[[507]int8],
	types9[[508]int8],
	types9[[509]int8],
	types9[[510]int8],
	types9[[511]int8],
	types9[[512]int8],
	types9[[513]int8],
	types9[[514]int8],
	types9[[515]int8],
	types9[[516]int8],
	types9[[517]int8],
	types9[[518]int8],
	types9[[519]int8],
	types9[[520]int8],
	types9[[521]int8],
	types9[[522]int8],
	types9[[523]int8],
	types9[[524]int8],
	types9[[525]int8],
	types9[[526]int8],
	types9[[527]int8],
	types9[[528]int8],
	types9[[529]int8],
	types9[[530]int8],
	types9[[531]int8],
	types9[[532]int8],
	types9[[533]int8],
	types9[[534]int8],
	types9[[535]int8],
	types9[[536]int8],
	types9[[537]int8],
	types9[[538]int8],
	types9[[539]int8],
	types9[[540]int8],
	types9[[541]int8],
	types9[[542]int8],
	types9[[543]int8],
	types9[[544]int8],
	types9[[545]int8],
	types9[[546]int8],
	types9[[547]int8],
	types9[[548]int8],
	types9[[549]int8],
	types9[[550]int8],
	types9[[551]int8],
	types9[[552]int8],
	types9[[553]int8],
	types9[[554]int8],
	types9[[555]int8],
	types9[[556]int8],
	types9[[557]int8],
	types9[[558]int8],
	types9[[559]int8],
	types9[[560]int8],
	types9[[561]int8],
	types9[[562]int8],
	types9[[563]int8],
	types9[[564]int8],
	types9[[565]int8],
	types9[[566]int8],
	types9[[567]int8],
	types9[[568]int8],
	types9[[569]int8],
	types9[[570]int8],
	types9[[571]int8],
	types9[[572]int8],
	types9[[573]int8],
	types9[[574]int8],
	types9[[575]int8],
	types9[[576]int8],
	types9[[577]int8],
	types9[[578]int8],
	types9[[579]int8],
	types9[[580]int8],
	types9[[581]int8],
	types9[[582]int8],
	types9[[583]int8],
	types9[[584]int8],
	types9[[585]int8],
	types9[[586]int8],
	types9[[587]int8],
	types9[[588]int8],
	types9[[589]int8],
	types9[[590]int8],
	types9[[591]int8],
	types9[[592]int8],
	types9[[593]int8],
	types9[[594]int8],
	types9[[595]int8],
	types9[[596]int8],
	types9[[597]int8],
	types9[[598]int8],
	types9[[599]int8],
	types9[[600]int8],
	types9[[601]int8],
	types9[[602]int8],
	types9[[603]int8],
	types9[[604]int8],
	types9[[605]int8],
	types9[[606]int8],
	types9[[607]int8],
	types9[[608]int8],
	types9[[609]int8],
	types9[[610]int8],
	types9[[611]int8],
	types9[[612]int8],
	types9[[613]int8],
	types9[[614]int8],
	types9[[615]int8],
	types9[[616]int8],
	types9[[617]int8],
	types9[[618]int8],
	types9[[619]int8],
	types9[[620]int8],
	types9[[621]int8],
	types9[[622]int8],
	types9[[623]int8],
	types9[[624]int8],
	types9[[625]int8],
	types9[[626]int8],
	types9[[627]int8],
	types9[[628]int8],
	types9[[629]int8],
	types9[[630]int8],
	types9[[631]int8],
	types9[[632]int8],
	types9[[633]int8],
	types9[[634]int8],
	types9[[635]int8],
	types9[[636]int8],
	types9[[637]int8],
	types9[[638]int8],
	types9[[639]int8],
	types9[[640]int8],
	types9[[641]int8],
	types9[[642]int8],
	types9[[643]int8],
	types9[[644]int8],
	types9[[645]int8],
	types9[[646]int8],
	types9[[647]int8],
	types9[[648]int8],
	types9[[649]int8],
	types9[[650]int8],
	types9[[651]int8],
	types9[[652]int8],
	types9[[653]int8],
	types9[[654]int8],
	types9[[655]int8],
	types9[[656]int8],
	types9[[657]int8],
	types9[[658]int8],
	types9[[659]int8],
	types9[[660]int8],
	types9[[661]int8],
	types9[[662]int8],
	types9[[663]int8],
	types9[[664]int8],
	types9[[665]int8],
	types9[[666]int8],
	types9[[667]int8],
	types9[[668]int8],
	types9[[669]int8],
	types9[[670]int8],
	types9[[671]int8],
	types9[[672]int8],
	types9[[673]int8],
	types9[[674]int8],
	types9[[675]int8],
	types9[[676]int8],
	types9[[677]int8],
	types9[[678]int8],
	types9[[679]int8],
	types9[[680]int8],
	types9[[681]int8],
	types9[[682]int8],
	types9[[683]int8],
	types9[[684]int8],
	types9[[685]int8],
	types9[[686]int8],
	types9[[687]int8],
	types9[[688]int8],
	types9[[689]int8],
	types9[[690]int8],
	types9[[691]int8],
	types9[[692]int8],
	types9[[693]int8],
	types9[[694]int8],
	types9[[695]int8],
	types9[[696]int8],
	types9[[697]int8],
	types9[[698]int8],
	types9[[699]int8],
	types9[[700]int8],
	types9[[701]int8],
	types9[[702]int8],
	types9[[703]int8],
	types9[[704]int8],
	types9[[705]int8],
	types9[[706]int8],
	types9[[707]int8],
	types9[[708]int8],
	types9[[709]int8],
	types9[[710]int8],
	types9[[711]int8],
	types9[[712]int8],
	types9[[713]int8],
	types9[[714]int8],
	types9[[715]int8],
	types9[[716]int8],
	types9[[717]int8],
	types9[[718]int8],
	types9[[719]int8],
	types9[[720]int8],
	types9[[721]int8],
	types9[[722]int8],
	types9[[723]int8],
	types9[[724]int8],
	types9[[725]int8],
	types9[[726]int8],
	types9[[727]int8],
	types9[[728]int8],
	types9[[729]int8],
	types9[[730]int8],
	types9[[731]int8],
	types9[[732]int8],
	types9[[733]int8],
	types9[[734]int8],
	types9[[735]int8],
	types9[[736]int8],
	types9[[737]int8],
	types9[[738]int8],
	types9[[739]int8],
	types9[[740]int8],
	types9[[741]int8],
	types9[[742]int8],
	types9[[743]int8],
	types9[[744]int8],
	types9[[745]int8],
	types9[[746]int8],
	types9[[747]int8],
	types9[[748]int8],
	types9[[749]int8],
	types9[[750]int8],
	types9[[751]int8],
	types9[[752]int8],
	types9[[753]int8],
	types9[[754]int8],
	types9[[755]int8],
	types9[[756]int8],
	types9[[757]int8],
	types9[[758]int8],
	types9[[759]int8],
	types9[[760]int8],
	types9[[761]int8],
	types9[[762]int8],
	types9[[763]int8],
	types9[[764]int8],
	types9[[765]int8],
	types9[[766]int8],
	types9[[767]int8],
	types9[[768]int8],
	types9[[769]int8],
	types9[[770]int8],
	types9[[771]int8],
	types9[[772]int8],
	types9[[773]int8],
	types9[[774]int8],
	types9[[775]int8],
	types9[[776]int8],
	types9[[777]int8],
	types9[[778]int8],
	types9[[779]int8],
	types9[[780]int8],
	types9[[781]int8],
	types9[[782]int8],
	types9[[783]int8],
	types9[[784]int8],
	types9[[785]int8],
	types9[[786]int8],
	types9[[787]int8],
	types9[[788]int8],
	types9[[789]int8],
	types9[[790]int8],
	types9[[791]int8],
	types9[[792]int8],
	types9[[793]int8],
	types9[[794]int8],
	types9[[795]int8],
	types9[[796]int8],
	types9[[797]int8],
	types9[[798]int8],
	types9[[799]int8],
	types9[[800]int8],
	types9[[801]int8],
	types9[[802]int8],
	types9[[803]int8],
	types9[[804]int8],
	types9[[805]int8],
	types9[[806]int8],
	types9[[807]int8],
	types9[[808]int8],
	types9[[809]int8],
	types9[[810]int8],
	types9[[811]int8],
	types9[[812]int8],
	types9[[813]int8],
	types9[[814]int8],
	types9[[815]int8],
	types9[[816]int8],
	types9[[817]int8],
	types9[[818]int8],
	types9[[819]int8],
	types9[[820]int8],
	types9[[821]int8],
	types9[[822]int8],
	types9[[823]int8],
	types9[[824]int8],
	types9[[825]int8],
	types9[[826]int8],
	types9[[827]int8],
	types9[[828]int8],
	types9[[829]int8],
	types9[[830]int8],
	types9[[831]int8],
	types9[[832]int8],
	types9[[833]int8],
	types9[[834]int8],
	types9[[835]int8],
	types9[[836]int8],
	types9[[837]int8],
	types9[[838]int8],
	types9[[839]int8],
	types9[[840]int8],
	types9[[841]int8],
	types9[[842]int8],
	types9[[843]int8],
	types9[[844]int8],
	types9[[845]int8],
	types9[[846]int8],
	types9[[847]int8],
	types9[[848]int8],
	types9[[849]int8],
	types9[[850]int8],
	types9[[851]int8],
	types9[[852]int8],
	types9[[853]int8],
	types9[[854]int8],
	types9[[855]int8],
	types9[[856]int8],
	types9[[857]int8],
	types9[[858]int8],
	types9[[859]int8],
	types9[[860]int8],
	types9[[861]int8],
	types9[[862]int8],
	types9[[863]int8],
	types9[[864]int8],
	types9[[865]int8],
	types9[[866]int8],
	types9[[867]int8],
	types9[[868]int8],
	types9[[869]int8],
	types9[[870]int8],
	types9[[871]int8],
	types9[[872]int8],
	types9[[873]int8],
	types9[[874]int8],
	types9[[875]int8],
	types9[[876]int8],
	types9[[877]int8],
	types9[[878]int8],
	types9[[879]int8],
	types9[[880]int8],
	types9[[881]int8],
	types9[[882]int8],
	types9[[883]int8],
	types9[[884]int8],
	types9[[885]int8],
	types9[[886]int8],
	types9[[887]int8],
	types9[[888]int8],
	types9[[889]int8],
	types9[[890]int8],
	types9[[891]int8],
	types9[[892]int8],
	types9[[893]int8],
	types9[[894]int8],
	types9[[895]int8],
	types9[[896]int8],
	types9[[897]int8],
	types9[[898]int8],
	types9[[899]int8],
	types9[[900]int8],
	types9[[901]int8],
	types9[[902]int8],
	types9[[903]int8],
	types9[[904]int8],
	types9[[905]int8],
	types9[[906]int8],
	types9[[907]int8],
	types9[[908]int8],
	types9[[909]int8],
	types9[[910]int8],
	types9[[911]int8],
	types9[[912]int8],
	types9[[913]int8],
	types9[[914]int8],
	types9[[915]int8],
	types9[[916]int8],
	types9[[917]int8],
	types9[[918]int8],
	types9[[919]int8],
	types9[[920]int8],
	types9[[921]int8],
	types9[[922]int8],
	types9[[923]int8],
	types9[[924]int8],
	types9[[925]int8],
	types9[[926]int8],
	types9[[927]int8],
	types9[[928]int8],
	types9[[929]int8],
	types9[[930]int8],
	types9[[931]int8],
	types9[[932]int8],
	types9[[933]int8],
	types9[[934]int8],
	types9[[935]int8],
	types9[[936]int8],
	types9[[937]int8],
	types9[[938]int8],
	types9[[939]int8],
	types9[[940]int8],
	types9[[941]int8],
	types9[[942]int8],
	types9[[943]int8],
	types9[[944]int8],
	types9[[945]int8],
	types9[[946]int8],
	types9[[947]int8],
	types9[[948]int8],
	types9[[949]int8],
	types9[[950]int8],
	types9[[951]int8],
	types9[[952]int8],
	types9[[953]int8],
	types9[[954]int8],
	types9[[955]int8],
	types9[[956]int8],
	types9[[957]int8],
	types9[[958]int8],
	types9[[959]int8],
	types9[[960]int8],
	types9[[961]int8],
	types9[[962]int8],
	types9[[963]int8],
	types9[[964]int8],
	types9[[965]int8],
	types9[[966]int8],
	types9[[967]int8],
	types9[[968]int8],
	types9[[969]int8],
	types9[[970]int8],
	types9[[971]int8],
	types9[[972]int8],
	types9[[973]int8],
	types9[[974]int8],
	types9[[975]int8],
	types9[[976]int8],
	types9[[977]int8],
	types9[[978]int8],
	types9[[979]int8],
	types9[[980]int8],
	types9[[981]int8],
	types9[[982]int8],
	types9[[983]int8],
	types9[[984]int8],
	types9[[985]int8],
	types9[[986]int8],
	types9[[987]int8],
	types9[[988]int8],
	types9[[989]int8],
	types9[[990]int8],
	types9[[991]int8],
	types9[[992]int8],
	types9[[993]int8],
	types9[[994]int8],
	types9[[995]int8],
	types9[[996]int8],
	types9[[997]int8],
	types9[[998]int8],
	types9[[999]int8],
	types9[[1000]int8],
	types9[[1001]int8],
	types9[[1002]int8],
	types9[[1003]int8],
	types9[[1004]int8],
	types9[[1005]int8],
	types9[[1006]int8],
	types9[[1007]int8],
	types9[[1008]int8],
	types9[[1009]int8],
	types9[[1010]int8],
	types9[[1011]int8],
	types9[[1012]int8],
	types9[[1013]int8],
	types9[[1014]int8],
	types9[[1015]int8],
	types9[[1016]int8],
	types9[[1017]int8],
	types9[[1018]int8],
	types9[[1019]int8],
	types9[[1020]int8],
	types9[[1021]int8],
	types9[[1022]int8],
	types9[[1023]int8],
	types9[[1024]int8],
	types9[[1025]int8],
	types9[[1026]int8],
	types9[[1027]int8],
	types9[[1028]int8],
	types9[[1029]int8],
	types9[[1030]int8],
	types9[[1031]int8],
	types9[[1032]int8],
	types9[[1033]int8],
	types9[[1034]int8],
	types9[[1035]int8],
	types9[[1036]int8],
	types9[[1037]int8],
	types9[[1038]int8],
	types9[[1039]int8],
	types9[[1040]int8],
	types9[[1041]int8],
	types9[[1042]int8],
	types9[[1043]int8],
	types9[[1044]int8],
	types9[[1045]int8],
	types9[[1046]int8],
	types9[[1047]int8],
	types9[[1048]int8],
	types9[[1049]int8],
	types9[[1050]int8],
	types9[[1051]int8],
	types9[[1052]int8],
	types9[[1053]int8],
	types9[[1054]int8],
	types9[[1055]int8],
	types9[[1056]int8],
	types9[[1057]int8],
	types9[[1058]int8],
	types9[[1059]int8],
	types9[[1060]int8],
	types9[[1061]int8],
	types9[[1062]int8],
	types9[[1063]int8],
	types9[[1064]int8],
	types9[[1065]int8],
	types9[[1066]int8],
	types9[[1067]int8],
	types9[[1068]int8],
	types9[[1069]int8],
	types9[[1070]int8],
	types9[[1071]int8],
	types9[[1072]int8],
	types9[[1073]int8],
	types9[[1074]int8],
	types9[[1075]int8],
	types9[[1076]int8],
	types9[[1077]int8],
	types9[[1078]int8],
	types9[[1079]int8],
	types9[[1080]int8],
	types9[[1081]int8],
	types9[[1082]int8],
	types9[[1083]int8],
	types9[[1084]int8],
	types9[[1085]int8],
	types9[[1086]int8],
	types9[[1087]int8],
	types9[[1088]int8],
	types9[[1089]int8],
	types9[[1090]int8],
	types9[[1091]int8],
	types9[[1092]int8],
	types9[[1093]int8],
	types9[[1094]int8],
	types9[[1095]int8],
	types9[[1096]int8],
	types9[[1097]int8],
	types9[[1098]int8],
	types9[[1099]int8],
	types9[[1100]int8],
	types9[[1101]int8],
	types9[[1102]int8],
	types9[[1103]int8],
	types9[[1104]int8],
	types9[[1105]int8],
	types9[[1106]int8],
	types9[[1107]int8],
	types9[[1108]int8],
	types9[[1109]int8],
	types9[[1110]int8],
	types9[[1111]int8],
	types9[[1112]int8],
	types9[[1113]int8],
	types9[[1114]int8],
	types9[[1115]int8],
	types9[[1116]int8],
	types9[[1117]int8],
	types9[[1118]int8],
	types9[[1119]int8],
	types9[[1120]int8],
	types9[[1121]int8],
	types9[[1122]int8],
	types9[[1123]int8],
	types9[[1124]int8],
	types9[[1125]int8],
	types9[[1126]int8],
	types9[[1127]int8],
	types9[[1128]int8],
	types9[[1129]int8],
	types9[[1130]int8],
	types9[[1131]int8],
	types9[[1132]int8],
	types9[[1133]int8],
	types9[[1134]int8],
	types9[[1135]int8],
	types9[[1136]int8],
	types9[[1137]int8],
	types9[[1138]int8],
	types9[[1139]int8],
	types9[[1140]int8],
	types9[[1141]int8],
	types9[[1142]int8],
	types9[[1143]int8],
	types9[[1144]int8],
	types9[[1145]int8],
	types9[[1146]int8],
	types9[[1147]int8],
	types9[[1148]int8],
	types9[[1149]int8],
	types9[[1150]int8],
	types9[[1151]int8],
	types9[[1152]int8],
	types9[[1153]int8],
	types9[[1154]int8],
	types9[[1155]int8],
	types9[[1156]int8],
	types9[[1157]int8],
	types9[[1158]int8],
	types9[[1159]int8],
	types9[[1160]int8],
	types9[[1161]int8],
	types9[[1162]int8],
	types9[[1163]int8],
	types9[[1164]int8],
	types9[[1165]int8],
	types9[[1166]int8],
	types9[[1167]int8],
	types9[[1168]int8],
	types9[[1169]int8],
	types9[[1170]int8],
	types9[[1171]int8],
	types9[[1172]int8],
	types9[[1173]int8],
	types9[[1174]int8],
	types9[[1175]int8],
	types9[[1176]int8],
	types9[[1177]int8],
	types9[[1178]int8],
	types9[[1179]int8],
	types9[[1180]int8],
	types9[[1181]int8],
	types9[[1182]int8],
	types9[[1183]int8],
	types9[[1184]int8],
	types9[[1185]int8],
	types9[[1186]int8],
	types9[[1187]int8],
	types9[[1188]int8],
	types9[[1189]int8],
	types9[[1190]int8],
	types9[[1191]int8],
	types9[[1192]int8],
	types9[[1193]int8],
	types9[[1194]int8],
	types9[[1195]int8],
	types9[[1196]int8],
	types9[[1197]int8],
	types9[[1198]int8],
	types9[[1199]int8],
	types9[[1200]int8],
	types9[[1201]int8],
	types9[[1202]int8],
	types9[[1203]int8],
	types9[[1204]int8],
	types9[[1205]int8],
	types9[[1206]int8],
	types9[[1207]int8],
	types9[[1208]int8],
	types9[[1209]int8],
	types9[[1210]int8],
	types9[[1211]int8],
	types9[[1212]int8],
	types9[[1213]int8],
	types9[[1214]int8],
	types9[[1215]int8],
	types9[[1216]int8],
	types9[[1217]int8],
	types9[[1218]int8],
	types9[[1219]int8],
	types9[[1220]int8],
	types9[[1221]int8],
	types9[[1222]int8],
	types9[[1223]int8],
	types9[[1224]int8],
	types9[[1225]int8],
	types9[[1226]int8],
	types9[[1227]int8],
	types9[[1228]int8],
	types9[[1229]int8],
	types9[[1230]int8],
	types9[[1231]int8],
	types9[[1232]int8],
	types9[[1233]int8],
	types9[[1234]int8],
	types9[[1235]int8],
	types9[[1236]int8],
	types9[[1237]int8],
	types9[[1238]int8],
	types9[[1239]int8],
	types9[[1240]int8],
	types9[[1241]int8],
	types9[[1242]int8],
	types9[[1243]int8],
	types9[[1244]int8],
	types9[[1245]int8],
	types9[[1246]int8],
	types9[[1247]int8],
	types9[[1248]int8],
	types9[[1249]int8],
	types9[[1250]int8],
	types9[[1251]int8],
	types9[[1252]int8],
	types9[[1253]int8],
	types9[[1254]int8],
	types9[[1255]int8],
	types9[[1256]int8],
	types9[[1257]int8],
	types9[[1258]int8],
	types9[[1259]int8],
	types9[[1260]int8],
	types9[[1261]int8],
	types9[[1262]int8],
	types9[[1263]int8],
	types9[[1264]int8],
	types9[[1265]int8],
	types9[[1266]int8],
	types9[[1267]int8],
	types9[[1268]int8],
	types9[[1269]int8],
	types9[[1270]int8],
	types9[[1271]int8],
	types9[[1272]int8],
	types9[[1273]int8],
	types9[[1274]int8],
	types9[[1275]int8],
	types9[[1276]int8],
	types9[[1277]int8],
	types9[[1278]int8],
	types9[[1279]int8],
	types9[[1280]int8],
	types9[[1281]int8],
	types9[[1282]int8],
	types9[[1283]int8],
	types9[[1284]int8],
	types9[[1285]int8],
	types9[[1286]int8],
	types9[[1287]int8],
	types9[[1288]int8],
	types9[[1289]int8],
	types9[[1290]int8],
	types9[[1291]int8],
	types9[[1292]int8],
	types9[[1293]int8],
	types9[[1294]int8],
	types9[[1295]int8],
	types9[[1296]int8],
	types9[[1297]int8],
	types9[[1298]int8],
	types9[[1299]int8],
	types9[[1300]int8],
	types9[[1301]int8],
	types9[[1302]int8],
	types9[[1303]int8],
	types9[[1304]int8],
	types9[[1305]int8],
	types9[[1306]int8],
	types9[[1307]int8],
	types9[[1308]int8],
	types9[[1309]int8],
	types9[[1310]int8],
	types9[[1311]int8],
	types9[[1312]int8],
	types9[[1313]int8],
	types9[[1314]int8],
	types9[[1315]int8],
	types9[[1316]int8],
	types9[[1317]int8],
	types9[[1318]int8],
	types9[[1319]int8],
	types9[[1320]int8],
	types9[[1321]int8],
	types9[[1322]int8],
	types9[[1323]int8],
	types9[[1324]int8],
	types9[[1325]int8],
	types9[[1326]int8],
	types9[[1327]int8],
	types9[[1328]int8],
	types9[[1329]int8],
	types9[[1330]int8],
	types9[[1331]int8],
	types9[[1332]int8],
	types9[[1333]int8],
	types9[[1334]int8],
	types9[[1335]int8],
	types9[[1336]int8],
	types9[[1337]int8],
	types9[[1338]int8],
	types9[[1339]int8],
	types9[[1340]int8],
	types9[[1341]int8],
	types9[[1342]int8],
	types9[[1343]int8],
	types9[[1344]int8],
	types9[[1345]int8],
	types9[[1346]int8],
	types9[[1347]int8],
	types9[[1348]int8],
	types9[[1349]int8],
	types9[[1350]int8],
	types9[[1351]int8],
	types9[[1352]int8],
	types9[[1353]int8],
	types9[[1354]int8],
	types9[[1355]int8],
	types9[[1356]int8],
	types9[[1357]int8],
	types9[[1358]int8],
	types9[[1359]int8],
	types9[[1360]int8],
	types9[[1361]int8],
	types9[[1362]int8],
	types9[[1363]int8],
	types9[[1364]int8],
	types9[[1365]int8],
	types9[[1366]int8],
	types9[[1367]int8],
	types9[[1368]int8],
	types9[[1369]int8],
	types9[[1370]int8],
	types9[[1371]int8],
	types9[[1372]int8],
	types9[[1373]int8],
	types9[[1374]int8],
	types9[[1375]int8],
	types9[[1376]int8],
	types9[[1377]int8],
	types9[[1378]int8],
	types9[[1379]int8],
	types9[[1380]int8],
	types9[[1381]int8],
	types9[[1382]int8],
	types9[[1383]int8],
	types9[[1384]int8],
	types9[[1385]int8],
	types9[[1386]int8],
	types9[[1387]int8],
	types9[[1388]int8],
	types9[[1389]int8],
	types9[[1390]int8],
	types9[[1391]int8],
	types9[[1392]int8],
	types9[[1393]int8],
	types9[[1394]int8],
	types9[[1395]int8],
	types9[[1396]int8],
	types9[[1397]int8],
	types9[[1398]int8],
	types9[[1399]int8],
	types9[[1400]int8],
	types9[[1401]int8],
	types9[[1402]int8],
	types9[[1403]int8],
	types9[[1404]int8],
	types9[[1405]int8],
	types9[[1406]int8],
	types9[[1407]int8],
	types9[[1408]int8],
	types9[[1409]int8],
	types9[[1410]int8],
	types9[[1411]int8],
	types9[[1412]int8],
	types9[[1413]int8],
	types9[[1414]int8],
	types9[[1415]int8],
	types9[[1416]int8],
	types9[[1417]int8],
	types9[[1418]int8],
	types9[[1419]int8],
	types9[[1420]int8],
	types9[[1421]int8],
	types9[[1422]int8],
	types9[[1423]int8],
	types9[[1424]int8],
	types9[[1425]int8],
	types9[[1426]int8],
	types9[[1427]int8],
	types9[[1428]int8],
	types9[[1429]int8],
	types9[[1430]int8],
	types9[[1431]int8],
	types9[[1432]int8],
	types9[[1433]int8],
	types9[[1434]int8],
	types9[[1435]int8],
	types9[[1436]int8],
	types9[[1437]int8],
	types9[[1438]int8],
	types9[[1439]int8],
	types9[[1440]int8],
	types9[[1441]int8],
	types9[[1442]int8],
	types9[[1443]int8],
	types9[[1444]int8],
	types9[[1445]int8],
	types9[[1446]int8],
	types9[[1447]int8],
	types9[[1448]int8],
	types9[[1449]int8],
	types9[[1450]int8],
	types9[[1451]int8],
	types9[[1452]int8],
	types9[[1453]int8],
	types9[[1454]int8],
	types9[[1455]int8],
	types9[[1456]int8],
	types9[[1457]int8],
	types9[[1458]int8],
	types9[[1459]int8],
	types9[[1460]int8],
	types9[[1461]int8],
	types9[[1462]int8],
	types9[[1463]int8],
	types9[[1464]int8],
	types9[[1465]int8],
	types9[[1466]int8],
	types9[[1467]int8],
	types9[[1468]int8],
	types9[[1469]int8],
	types9[[1470]int8],
	types9[[1471]int8],
	types9[[1472]int8],
	types9[[1473]int8],
	types9[[1474]int8],
	types9[[1475]int8],
	types9[[1476]int8],
	types9[[1477]int8],
	types9[[1478]int8],
	types9[[1479]int8],
	types9[[1480]int8],
	types9[[1481]int8],
	types9[[1482]int8],
	types9[[1483]int8],
	types9[[1484]int8],
	types9[[1485]int8],
	types9[[1486]int8],
	types9[[1487]int8],
	types9[[1488]int8],
	types9[[1489]int8],
	types9[[1490]int8],
	types9[[1491]int8],
	types9[[1492]int8],
	types9[[1493]int8],
	types9[[1494]int8],
	types9[[1495]int8],
	types9[[1496]int8],
	types9[[1497]int8],
	types9[[1498]int8],
	types9[[1499]int8],
	types9[[1500]int8],
}
