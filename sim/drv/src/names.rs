// Generated once from the public names of the crate; CSS values from the CSS Color Module (node's color-name), not from the crate.
#[macro_export]
macro_rules! for_ansi { ($m:ident) => { $m! { Black Red Green Yellow Blue Magenta Cyan White BrightBlack BrightRed BrightGreen BrightYellow BrightBlue BrightMagenta BrightCyan BrightWhite Default } } }
#[macro_export]
macro_rules! for_xterm { ($m:ident) => { $m! { Black Red Green Yellow Blue Magenta Cyan White BrightBlack BrightRed BrightGreen BrightYellow BrightBlue BrightMagenta BrightCyan BrightWhite Gray0 Navy DarkBlue Blue3 MediumBlue Blue1 DarkGreen Teal DeepSkyBlue4 DodgerBlue4 DodgerBlue3 DodgerBlue2 Green4 SpringGreen4 Turquoise4 DarkCyan DeepSkyBlue3 DodgerBlue ForestGreen SeaGreen Cyan4 LightSeaGreen DeepSkyBlue2 DeepSkyBlue Green3 SpringGreen3 SpringGreen2 Cyan3 DarkTurquoise Turquoise2 Lime SpringGreen1 SpringGreen MediumSpringGreen Cyan2 Aqua Firebrick4 DarkOrchid4 Indigo Purple4 Purple3 BlueViolet Olive Gray37 MediumPurple4 SlateBlue SlateBlue3 RoyalBlue1 Chartreuse4 DarkSeaGreen4 PaleTurquoise4 SteelBlue SteelBlue3 CornflowerBlue OliveDrab PaleGreen4 DarkSlateGray4 CadetBlue SkyBlue3 SteelBlue1 Chartreuse3 MediumSeaGreen SeaGreen3 MediumAquamarine MediumTurquoise LightSkyBlue Chartreuse2 LimeGreen SeaGreen2 SeaGreen1 Aquamarine1 DarkSlateGray2 DarkRed DeepPink4 DarkMagenta Magenta4 DarkViolet Purple2 Orange4 LightPink4 Plum4 Orchid4 MediumPurple3 SlateBlue1 Yellow4 Wheat4 Gray53 LightSlateGray MediumPurple LightSlateBlue OliveDrab4 LemonChiffon4 DarkSeaGreen Gray63 LightSkyBlue3 SkyBlue2 LawnGreen YellowGreen PaleGreen3 DarkSeaGreen3 DarkSlateGray3 SkyBlue1 Chartreuse OliveDrab2 LightGreen PaleGreen1 Aquamarine DarkSlateGray1 Red4 Maroon4 MediumVioletRed Maroon3 DarkOrchid3 Purple DarkGoldenrod4 IndianRed3 PaleVioletRed3 MediumOrchid3 MediumOrchid DarkOrchid1 DarkGoldenrod NavajoWhite4 RosyBrown Grey63 MediumPurple2 MediumPurple1 DarkGoldenrod3 DarkKhaki NavajoWhite3 Gray69 LightSteelBlue3 LightSteelBlue OliveDrab3 DarkOliveGreen3 PaleGreen2 Honeydew3 LightCyan3 LightSkyBlue1 GreenYellow DarkOliveGreen2 PaleGreen DarkSeaGreen2 DarkSeaGreen1 PaleTurquoise1 Red3 Crimson DeepPink3 VioletRed Magenta3 Magenta2 DarkOrange3 IndianRed HotPink3 HotPink2 Orchid MediumOrchid1 Orange3 LightSalmon3 LightPink3 Pink3 Plum3 Violet Gold3 LightGoldenrod3 Tan MistyRose3 Thistle3 Plum2 Yellow3 Khaki3 LightGoldenrod LightYellow3 Gray84 LightSteelBlue1 Yellow2 DarkOliveGreen1 Khaki2 PaleGoldenrod Honeydew2 LightCyan Red1 DeepPink2 DeepPink DeepPink1 Magenta1 Fuchsia OrangeRed IndianRed1 VioletRed1 HotPink HotPink1 MediumOrchid2 DarkOrange Salmon1 LightCoral PaleVioletRed1 Orchid2 Orchid1 Orange SandyBrown LightSalmon LightPink1 Pink1 Plum1 Gold Khaki LightGoldenrod2 NavajoWhite MistyRose Thistle1 Yellow1 LightGoldenrod1 Khaki1 Wheat1 Cornsilk Gray100 Gray3 Gray7 Gray11 Gray15 Gray19 Gray23 Gray27 Gray30 Gray34 Gray38 Gray42 Gray46 Gray50 Gray54 Gray58 Gray62 Gray66 Gray70 Gray74 Gray78 Gray81 Gray85 Gray89 Gray93 } } }
#[macro_export]
macro_rules! for_css { ($m:ident) => { $m! { AliceBlue AntiqueWhite Aqua Aquamarine Azure Beige Bisque Black BlanchedAlmond Blue BlueViolet Brown BurlyWood CadetBlue Chartreuse Chocolate Coral CornflowerBlue Cornsilk Crimson DarkBlue DarkCyan DarkGoldenRod DarkGray DarkGrey DarkGreen DarkKhaki DarkMagenta DarkOliveGreen DarkOrange DarkOrchid DarkRed DarkSalmon DarkSeaGreen DarkSlateBlue DarkSlateGray DarkSlateGrey DarkTurquoise DarkViolet DeepPink DeepSkyBlue DimGray DimGrey DodgerBlue FireBrick FloralWhite ForestGreen Fuchsia Gainsboro GhostWhite Gold GoldenRod Gray Grey Green GreenYellow HoneyDew HotPink IndianRed Indigo Ivory Khaki Lavender LavenderBlush LawnGreen LemonChiffon LightBlue LightCoral LightCyan LightGoldenRodYellow LightGray LightGrey LightGreen LightPink LightSalmon LightSeaGreen LightSkyBlue LightSlateGray LightSlateGrey LightSteelBlue LightYellow Lime LimeGreen Linen Magenta Maroon MediumAquaMarine MediumBlue MediumOrchid MediumPurple MediumSeaGreen MediumSlateBlue MediumSpringGreen MediumTurquoise MediumVioletRed MidnightBlue MintCream MistyRose Moccasin NavajoWhite Navy OldLace Olive OliveDrab Orange OrangeRed Orchid PaleGoldenRod PaleGreen PaleTurquoise PaleVioletRed PapayaWhip PeachPuff Peru Pink Plum PowderBlue Purple RebeccaPurple Red RosyBrown RoyalBlue SaddleBrown Salmon SandyBrown SeaGreen SeaShell Sienna Silver SkyBlue SlateBlue SlateGray SlateGrey Snow SpringGreen SteelBlue Tan Teal Thistle Tomato Turquoise Violet Wheat White WhiteSmoke Yellow YellowGreen } } }
// every value of every component of a compile-time colour, shuffled
#[macro_export]
macro_rules! for_rgb { ($m:ident) => { $m! { 0 0 0, 255 255 255, 1 22 133, 9 10 99, 100 101 199, 200 250 255, 7 70 107, 99 100 9, 255 0 18, 128 8 80, 0 12 181, 1 225 6, 2 235 85, 3 29 22, 4 206 241, 5 43 111, 6 111 210, 7 109 189, 8 59 114, 9 54 172, 10 216 14, 11 156 26, 12 101 55, 13 153 195, 14 38 11, 15 112 47, 16 121 252, 17 41 143, 18 56 102, 19 125 213, 20 163 80, 21 232 91, 22 164 8, 23 186 230, 24 8 154, 25 124 116, 26 36 130, 27 15 245, 28 177 142, 29 197 124, 30 208 88, 31 159 76, 32 127 21, 33 73 135, 34 181 147, 35 49 216, 36 48 182, 37 149 136, 38 190 108, 39 180 48, 40 192 174, 41 157 153, 42 126 232, 43 142 193, 44 133 70, 45 170 249, 46 162 185, 47 237 12, 48 17 254, 49 136 115, 50 161 25, 51 172 53, 52 221 65, 53 31 30, 54 183 41, 55 239 134, 56 34 45, 57 82 73, 58 24 220, 59 218 87, 60 245 227, 61 57 51, 62 25 206, 63 60 54, 64 200 129, 65 213 178, 66 141 212, 67 165 58, 68 227 32, 69 85 160, 70 66 99, 71 234 145, 72 179 208, 73 155 44, 74 129 59, 75 100 165, 76 108 67, 77 114 224, 78 167 78, 79 252 247, 80 21 168, 81 238 93, 82 194 38, 83 151 16, 84 174 2, 85 72 117, 86 175 250, 87 228 82, 88 185 133, 89 226 236, 90 117 242, 91 81 63, 92 244 226, 93 214 121, 94 132 92, 95 83 19, 96 58 155, 97 209 207, 98 44 101, 99 105 4, 100 137 234, 101 147 113, 102 211 35, 103 51 188, 104 68 68, 105 248 233, 106 116 1, 107 6 235, 108 210 105, 109 20 17, 110 61 100, 111 242 128, 112 144 37, 113 255 31, 114 19 222, 115 168 79, 116 10 84, 117 102 15, 118 22 3, 119 122 61, 120 217 197, 121 128 146, 122 39 118, 123 178 62, 124 69 39, 125 89 125, 126 229 215, 127 70 209, 128 143 5, 129 184 203, 130 224 64, 131 87 127, 132 205 179, 133 23 66, 134 110 218, 135 9 98, 136 75 196, 137 94 180, 138 27 74, 139 145 126, 140 64 214, 141 134 110, 142 171 109, 143 131 96, 144 88 173, 145 118 149, 146 62 162, 147 30 138, 148 191 158, 149 193 83, 150 11 27, 151 115 225, 152 2 191, 153 148 190, 154 96 23, 155 93 211, 156 107 229, 157 140 122, 158 4 167, 159 103 200, 160 253 152, 161 188 228, 162 65 36, 163 14 202, 164 45 94, 165 233 137, 166 169 164, 167 47 144, 168 199 187, 169 123 240, 170 78 33, 171 90 90, 172 79 253, 173 182 243, 174 86 86, 175 219 131, 176 152 139, 177 207 75, 178 150 24, 179 154 238, 180 77 246, 181 84 231, 182 16 204, 183 67 192, 184 37 205, 185 201 176, 186 106 29, 187 92 104, 188 5 71, 189 76 103, 190 98 201, 191 243 0, 192 251 95, 193 220 217, 194 52 60, 195 160 52, 196 173 151, 197 138 18, 198 50 156, 199 80 169, 200 74 97, 201 202 89, 202 42 119, 203 223 248, 204 250 9, 205 53 140, 206 1 49, 207 0 123, 208 33 219, 209 32 81, 210 113 28, 211 212 34, 212 158 13, 213 35 42, 214 18 57, 215 204 120, 216 195 10, 217 246 183, 218 99 161, 219 196 223, 220 46 175, 221 71 194, 222 104 56, 223 55 46, 224 187 166, 225 3 237, 226 231 112, 227 146 150, 228 26 40, 229 139 50, 230 97 7, 231 240 251, 232 222 69, 233 120 163, 234 95 221, 235 28 198, 236 40 141, 237 230 159, 238 13 77, 239 247 107, 240 63 255, 241 198 170, 242 119 132, 243 249 148, 244 7 239, 245 135 199, 246 236 157, 247 166 43, 248 254 106, 249 215 186, 250 241 171, 251 176 184, 252 203 20, 253 91 177, 254 189 72, 255 130 244 } } }
