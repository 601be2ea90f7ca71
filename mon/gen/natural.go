package gen

const natural = "The quick brown fox jumps over the lazy dog.\r\nPortez ce vieux whisky au juge blond qui fume. " +
	"Cafe\u0301 nai\u0308ve re\u0301sume\u0301 \u00e5ngstro\u0308m A\u030a\u0327\n" +
	"क्षत्रिय विद्यार्थी ने संस्कृत में श्री कृष्ण की स्तुति की। ज्ञान, हृदय, र्‍य, क्‍ष, क्‌ष\n" +
	"বাংলা ভাষায় যুক্তাক্ষর: ক্ত ন্দ্র স্ত্রী; ગુજરાતી ક્ષેત્ર; ଓଡ଼ିଆ ସ୍ତ୍ରୀ; తెలుగు స్త్రీ క్షేత్రం; മലയാളം സ്ത്രീ ക്ഷേത്രം\n" +
	"தமிழ் நிகழ்காலம் கூறுகிறது; ಕನ್ನಡ ರಾಷ್ಟ್ರ; සිංහල ක්‍රියා ශ්‍රී ලංකා; မြန်မာဘာသာ ကျွန်တော်; ភាសាខ្មែរ ស្ត្រី; ภาษาไทย กำลัง น้ำ; ພາສາລາວ ນ້ຳ\n" +
	"한국어 텍스트 \u1112\u1161\u11ab\u1100\u1173\u11af \u1100\u1100\u1161\uac00\u11a8 \uac01\u11a8 日本語のテキスト が は\u3099 か\u3099 中文文本\r\n" +
	"العربية مُحَمَّدٌ \u0600\u0661\u0662 עִבְרִית שָׁלוֹם فارسی می\u200cخواهم 𑂽𑄑 \U000110bd\U000110b0 𞤀𞤣𞤤𞤢𞤥\n" +
	"👨‍👩‍👧‍👦 👩🏽‍🚀 🏳️‍🌈 🏴󠁧󠁢󠁥󠁮󠁧󠁿 🇩🇪🇫🇷🇬🇧🇯 ❤️‍🔥 👋🏿 ☎︎ ☎️ 1️⃣ #️⃣ 🤦🏽‍♂️ ©️‍®️ \U0001F468\u200d\u200d\U0001F469\n" +
	"\ufeffZero\u200bWidth\u2060Stuff\u00ad soft\u2028line\u2029para \u202eRTL\u202c \ufffd \U0010FFFF \U000E0001\U000E0020\t\x00\x7f\u0085\n" +
	"Z̸̧͚͔͓̗̪̄̐͋a̷̢͔͇͌̈́͐l̶̨̛̥̙͎͂g̴̫̱̀̕o̸̘̿ ภูมิทัศน์ ᠮᠣᠩᠭᠣᠯ᠋ 𑒂𑒳 \U00011F02\U00011F02\U00011F04\n"
