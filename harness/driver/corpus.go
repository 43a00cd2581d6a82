package main

import (
	"math/rand"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
)

// sentences for the real dictionaries
var sentences = []string{
	"",
	"すもももももももものうち",
	"関西国際空港限定トートバッグを東京スカイツリーの最寄り駅であるとうきょうスカイツリー駅で買う",
	"人魚は、南の方の海にばかり棲んでいるのではありません。",
	"吾輩は猫である。名前はまだ無い。",
	"デジカメを買った。ソフトウェアエンジニア",
	"日本経済新聞でモバゲーの記事を読んだ。",
	"シニアソフトウェアエンジニアを探しています",
	"医薬品安全管理責任者",
	"東京特許許可局局長今日急遽許可却下",
	"ＡＢＣ１２３ａｂｃ123,456円（税込）",
	"1234567890ABCDEFGHIJ",
	"Hello, 世界! \U0001f363\U0001f37a",
	"ポポポポーンとゲゲゲのゲンゲンガンガン",
	"\"引用\\符\"付き",
	"a\x00b",
	"\xff\xfe猫\xe3\x81です",
	"\uFFFD猫\uFFFD\uFFFD",
	"ー－ー々〆〇ヶヵ",
	"Привет мир αβγ 한국어",
	" 　\t\n\r\n空 白　",
	"２０２６年１１月１８日　午後３時４５分",
	"第一二三四五六七八九十百千万億兆",
	"すべての人間は、生れながらにして自由であり、かつ、尊厳と権利とについて平等である。",
	"ｶﾞｷﾞｸﾞｹﾞｺﾞ半角ｶﾀｶﾅ",
	"走れ走る走った走らなければならなかった",
	"\u3099\u309aか\u3099",
	"EOS",
	"BOS\nEOS",
	"𠮷野家で𩸽を食べる",
	"龘靐齉爩鱻麤",
	"国際空港関西国際空港",
	"貴社の記者が汽車で帰社した",
	"ああああああああああああああああああああ",
	"アアアアアアアアアアアアアアアアアアアアー",
	"漢漢漢漢漢漢漢漢漢漢漢漢",
	"!!!???。。。、、、",
	"C++とC#とF#.NET",
	"http://example.com/?q=日本語&x=1",
	"100%、−5℃、±3",
	"\ufeff先頭の印",
	"猫\ufeff",
	"\u200bゼロ\u200d幅\u00a0",
	"e\u0301\u0301が",
	"\u2028行\u2029\u0085",
	"\x7f\x1b[31m赤\x1b[0m",
	"\uffff\U0010ffff\ue000",
	"\x00猫\x00",
	" 猫 ",
}

func realUserDict() *dict.UserDict {
	u, err := dict.UserDictRecords{
		{Text: "関西国際空港", Tokens: []string{"関西", "国際", "空港"}, Yomi: []string{"カンサイ", "コクサイ", "クウコウ"}, Pos: "カスタム名詞"},
		{Text: "東京スカイツリー", Tokens: []string{"東京", "スカイツリー"}, Yomi: []string{"トウキョウ", "スカイツリー"}, Pos: "カスタム名詞"},
		{Text: "ももも", Tokens: []string{"ももも"}, Yomi: []string{"モモモ"}, Pos: "カスタム"},
		{Text: "猫", Tokens: []string{"猫"}, Yomi: []string{"ニャー"}, Pos: "動物"},
		{Text: "許可局局長今日", Tokens: []string{"許可局", "局長今日"}, Yomi: []string{"a", "b"}, Pos: "変"},
		{Text: "エンジニア", Tokens: []string{"エンジニア"}, Yomi: []string{"エンジニア"}, Pos: "職業"},
		{Text: "。", Tokens: []string{"。"}, Yomi: []string{"マル"}, Pos: "点"},
	}.NewUserDict()
	if err != nil {
		fatalf("%v", err)
	}
	return u
}

// realInput makes a text for the real dictionaries.
// specials are characters that programs treat in special ways.
var specials = []string{"\ufeff", "\x00", "\u200b", "\u00a0", "\u2028", "\u2029", "\u0301", "\u200d", "\ufe0f", "\u202e", "\x1b[0m", "\x7f", "\u0085", "\uffff", "\U0010ffff",
	"\r", "\t", "\u3000", " ", "\v", "\f", "\x1a", "\xef\xbb", "\xff\xfe", "\\", "\"", "'", "%", "%s", "$", "`", ",", "#", "<", "&amp;", "\\u0000", "\ue000", "\u00ad", "ﾞ", "\u2003"}

func realInput(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		s := []rune(sentences[r.Intn(len(sentences))])
		if len(s) == 0 {
			continue
		}
		i := r.Intn(len(s))
		j := i + 1 + r.Intn(len(s)-i)
		if j-i > 20 {
			j = i + 20
		}
		b.WriteString(string(s[i:j]))
		if r.Intn(5) == 0 {
			b.WriteString(badBytes[r.Intn(len(badBytes))])
		}
	}
	switch r.Intn(10) { // first or last a character that programs like to drop
	case 0:
		return specials[r.Intn(len(specials))] + b.String()
	case 1:
		return b.String() + specials[r.Intn(len(specials))]
	case 2:
		return specials[r.Intn(len(specials))] + b.String() + specials[r.Intn(len(specials))]
	}
	return b.String()
}
