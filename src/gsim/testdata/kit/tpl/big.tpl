type {{.Interface.Name}}Big struct{}
// line 0 of a long template that needs more than one read to arrive completely
// line 1 of a long template that needs more than one read to arrive completely
// line 2 of a long template that needs more than one read to arrive completely
// line 3 of a long template that needs more than one read to arrive completely
// line 4 of a long template that needs more than one read to arrive completely
// line 5 of a long template that needs more than one read to arrive completely
// line 6 of a long template that needs more than one read to arrive completely
// line 7 of a long template that needs more than one read to arrive completely
// line 8 of a long template that needs more than one read to arrive completely
// line 9 of a long template that needs more than one read to arrive completely
// line 10 of a long template that needs more than one read to arrive completely
// line 11 of a long template that needs more than one read to arrive completely
// line 12 of a long template that needs more than one read to arrive completely
// line 13 of a long template that needs more than one read to arrive completely
// line 14 of a long template that needs more than one read to arrive completely
// line 15 of a long template that needs more than one read to arrive completely
// line 16 of a long template that needs more than one read to arrive completely
// line 17 of a long template that needs more than one read to arrive completely
// line 18 of a long template that needs more than one read to arrive completely
// line 19 of a long template that needs more than one read to arrive completely
// line 20 of a long template that needs more than one read to arrive completely
// line 21 of a long template that needs more than one read to arrive completely
// line 22 of a long template that needs more than one read to arrive completely
// line 23 of a long template that needs more than one read to arrive completely
// line 24 of a long template that needs more than one read to arrive completely
// line 25 of a long template that needs more than one read to arrive completely
// line 26 of a long template that needs more than one read to arrive completely
// line 27 of a long template that needs more than one read to arrive completely
// line 28 of a long template that needs more than one read to arrive completely
// line 29 of a long template that needs more than one read to arrive completely
// line 30 of a long template that needs more than one read to arrive completely
// line 31 of a long template that needs more than one read to arrive completely
// line 32 of a long template that needs more than one read to arrive completely
// line 33 of a long template that needs more than one read to arrive completely
// line 34 of a long template that needs more than one read to arrive completely
// line 35 of a long template that needs more than one read to arrive completely
// line 36 of a long template that needs more than one read to arrive completely
// line 37 of a long template that needs more than one read to arrive completely
// line 38 of a long template that needs more than one read to arrive completely
// line 39 of a long template that needs more than one read to arrive completely
// line 40 of a long template that needs more than one read to arrive completely
// line 41 of a long template that needs more than one read to arrive completely
// line 42 of a long template that needs more than one read to arrive completely
// line 43 of a long template that needs more than one read to arrive completely
// line 44 of a long template that needs more than one read to arrive completely
// line 45 of a long template that needs more than one read to arrive completely
// line 46 of a long template that needs more than one read to arrive completely
// line 47 of a long template that needs more than one read to arrive completely
// line 48 of a long template that needs more than one read to arrive completely
// line 49 of a long template that needs more than one read to arrive completely
// line 50 of a long template that needs more than one read to arrive completely
// line 51 of a long template that needs more than one read to arrive completely
// line 52 of a long template that needs more than one read to arrive completely
// line 53 of a long template that needs more than one read to arrive completely
// line 54 of a long template that needs more than one read to arrive completely
// line 55 of a long template that needs more than one read to arrive completely
// line 56 of a long template that needs more than one read to arrive completely
// line 57 of a long template that needs more than one read to arrive completely
// line 58 of a long template that needs more than one read to arrive completely
// line 59 of a long template that needs more than one read to arrive completely
// line 60 of a long template that needs more than one read to arrive completely
// line 61 of a long template that needs more than one read to arrive completely
// line 62 of a long template that needs more than one read to arrive completely
// line 63 of a long template that needs more than one read to arrive completely
// line 64 of a long template that needs more than one read to arrive completely
// line 65 of a long template that needs more than one read to arrive completely
// line 66 of a long template that needs more than one read to arrive completely
// line 67 of a long template that needs more than one read to arrive completely
// line 68 of a long template that needs more than one read to arrive completely
// line 69 of a long template that needs more than one read to arrive completely
// line 70 of a long template that needs more than one read to arrive completely
// line 71 of a long template that needs more than one read to arrive completely
// line 72 of a long template that needs more than one read to arrive completely
// line 73 of a long template that needs more than one read to arrive completely
// line 74 of a long template that needs more than one read to arrive completely
// line 75 of a long template that needs more than one read to arrive completely
// line 76 of a long template that needs more than one read to arrive completely
// line 77 of a long template that needs more than one read to arrive completely
// line 78 of a long template that needs more than one read to arrive completely
// line 79 of a long template that needs more than one read to arrive completely
// line 80 of a long template that needs more than one read to arrive completely
// line 81 of a long template that needs more than one read to arrive completely
// line 82 of a long template that needs more than one read to arrive completely
// line 83 of a long template that needs more than one read to arrive completely
// line 84 of a long template that needs more than one read to arrive completely
// line 85 of a long template that needs more than one read to arrive completely
// line 86 of a long template that needs more than one read to arrive completely
// line 87 of a long template that needs more than one read to arrive completely
// line 88 of a long template that needs more than one read to arrive completely
// line 89 of a long template that needs more than one read to arrive completely
// line 90 of a long template that needs more than one read to arrive completely
// line 91 of a long template that needs more than one read to arrive completely
// line 92 of a long template that needs more than one read to arrive completely
// line 93 of a long template that needs more than one read to arrive completely
// line 94 of a long template that needs more than one read to arrive completely
// line 95 of a long template that needs more than one read to arrive completely
// line 96 of a long template that needs more than one read to arrive completely
// line 97 of a long template that needs more than one read to arrive completely
// line 98 of a long template that needs more than one read to arrive completely
// line 99 of a long template that needs more than one read to arrive completely
// line 100 of a long template that needs more than one read to arrive completely
// line 101 of a long template that needs more than one read to arrive completely
// line 102 of a long template that needs more than one read to arrive completely
// line 103 of a long template that needs more than one read to arrive completely
// line 104 of a long template that needs more than one read to arrive completely
// line 105 of a long template that needs more than one read to arrive completely
// line 106 of a long template that needs more than one read to arrive completely
// line 107 of a long template that needs more than one read to arrive completely
// line 108 of a long template that needs more than one read to arrive completely
// line 109 of a long template that needs more than one read to arrive completely
// line 110 of a long template that needs more than one read to arrive completely
// line 111 of a long template that needs more than one read to arrive completely
// line 112 of a long template that needs more than one read to arrive completely
// line 113 of a long template that needs more than one read to arrive completely
// line 114 of a long template that needs more than one read to arrive completely
// line 115 of a long template that needs more than one read to arrive completely
// line 116 of a long template that needs more than one read to arrive completely
// line 117 of a long template that needs more than one read to arrive completely
// line 118 of a long template that needs more than one read to arrive completely
// line 119 of a long template that needs more than one read to arrive completely
// line 120 of a long template that needs more than one read to arrive completely
// line 121 of a long template that needs more than one read to arrive completely
// line 122 of a long template that needs more than one read to arrive completely
// line 123 of a long template that needs more than one read to arrive completely
// line 124 of a long template that needs more than one read to arrive completely
// line 125 of a long template that needs more than one read to arrive completely
// line 126 of a long template that needs more than one read to arrive completely
// line 127 of a long template that needs more than one read to arrive completely
// line 128 of a long template that needs more than one read to arrive completely
// line 129 of a long template that needs more than one read to arrive completely
// line 130 of a long template that needs more than one read to arrive completely
// line 131 of a long template that needs more than one read to arrive completely
// line 132 of a long template that needs more than one read to arrive completely
// line 133 of a long template that needs more than one read to arrive completely
// line 134 of a long template that needs more than one read to arrive completely
// line 135 of a long template that needs more than one read to arrive completely
// line 136 of a long template that needs more than one read to arrive completely
// line 137 of a long template that needs more than one read to arrive completely
// line 138 of a long template that needs more than one read to arrive completely
// line 139 of a long template that needs more than one read to arrive completely
// line 140 of a long template that needs more than one read to arrive completely
// line 141 of a long template that needs more than one read to arrive completely
// line 142 of a long template that needs more than one read to arrive completely
// line 143 of a long template that needs more than one read to arrive completely
// line 144 of a long template that needs more than one read to arrive completely
// line 145 of a long template that needs more than one read to arrive completely
// line 146 of a long template that needs more than one read to arrive completely
// line 147 of a long template that needs more than one read to arrive completely
// line 148 of a long template that needs more than one read to arrive completely
// line 149 of a long template that needs more than one read to arrive completely
// line 150 of a long template that needs more than one read to arrive completely
// line 151 of a long template that needs more than one read to arrive completely
// line 152 of a long template that needs more than one read to arrive completely
// line 153 of a long template that needs more than one read to arrive completely
// line 154 of a long template that needs more than one read to arrive completely
// line 155 of a long template that needs more than one read to arrive completely
// line 156 of a long template that needs more than one read to arrive completely
// line 157 of a long template that needs more than one read to arrive completely
// line 158 of a long template that needs more than one read to arrive completely
// line 159 of a long template that needs more than one read to arrive completely
// line 160 of a long template that needs more than one read to arrive completely
// line 161 of a long template that needs more than one read to arrive completely
// line 162 of a long template that needs more than one read to arrive completely
// line 163 of a long template that needs more than one read to arrive completely
// line 164 of a long template that needs more than one read to arrive completely
// line 165 of a long template that needs more than one read to arrive completely
// line 166 of a long template that needs more than one read to arrive completely
// line 167 of a long template that needs more than one read to arrive completely
// line 168 of a long template that needs more than one read to arrive completely
// line 169 of a long template that needs more than one read to arrive completely
// line 170 of a long template that needs more than one read to arrive completely
// line 171 of a long template that needs more than one read to arrive completely
// line 172 of a long template that needs more than one read to arrive completely
// line 173 of a long template that needs more than one read to arrive completely
// line 174 of a long template that needs more than one read to arrive completely
// line 175 of a long template that needs more than one read to arrive completely
// line 176 of a long template that needs more than one read to arrive completely
// line 177 of a long template that needs more than one read to arrive completely
// line 178 of a long template that needs more than one read to arrive completely
// line 179 of a long template that needs more than one read to arrive completely
// line 180 of a long template that needs more than one read to arrive completely
// line 181 of a long template that needs more than one read to arrive completely
// line 182 of a long template that needs more than one read to arrive completely
// line 183 of a long template that needs more than one read to arrive completely
// line 184 of a long template that needs more than one read to arrive completely
// line 185 of a long template that needs more than one read to arrive completely
// line 186 of a long template that needs more than one read to arrive completely
// line 187 of a long template that needs more than one read to arrive completely
// line 188 of a long template that needs more than one read to arrive completely
// line 189 of a long template that needs more than one read to arrive completely
// line 190 of a long template that needs more than one read to arrive completely
// line 191 of a long template that needs more than one read to arrive completely
// line 192 of a long template that needs more than one read to arrive completely
// line 193 of a long template that needs more than one read to arrive completely
// line 194 of a long template that needs more than one read to arrive completely
// line 195 of a long template that needs more than one read to arrive completely
// line 196 of a long template that needs more than one read to arrive completely
// line 197 of a long template that needs more than one read to arrive completely
// line 198 of a long template that needs more than one read to arrive completely
// line 199 of a long template that needs more than one read to arrive completely
// line 200 of a long template that needs more than one read to arrive completely
// line 201 of a long template that needs more than one read to arrive completely
// line 202 of a long template that needs more than one read to arrive completely
// line 203 of a long template that needs more than one read to arrive completely
// line 204 of a long template that needs more than one read to arrive completely
// line 205 of a long template that needs more than one read to arrive completely
// line 206 of a long template that needs more than one read to arrive completely
// line 207 of a long template that needs more than one read to arrive completely
// line 208 of a long template that needs more than one read to arrive completely
// line 209 of a long template that needs more than one read to arrive completely
// line 210 of a long template that needs more than one read to arrive completely
// line 211 of a long template that needs more than one read to arrive completely
// line 212 of a long template that needs more than one read to arrive completely
// line 213 of a long template that needs more than one read to arrive completely
// line 214 of a long template that needs more than one read to arrive completely
// line 215 of a long template that needs more than one read to arrive completely
// line 216 of a long template that needs more than one read to arrive completely
// line 217 of a long template that needs more than one read to arrive completely
// line 218 of a long template that needs more than one read to arrive completely
// line 219 of a long template that needs more than one read to arrive completely
// line 220 of a long template that needs more than one read to arrive completely
// line 221 of a long template that needs more than one read to arrive completely
// line 222 of a long template that needs more than one read to arrive completely
// line 223 of a long template that needs more than one read to arrive completely
// line 224 of a long template that needs more than one read to arrive completely
// line 225 of a long template that needs more than one read to arrive completely
// line 226 of a long template that needs more than one read to arrive completely
// line 227 of a long template that needs more than one read to arrive completely
// line 228 of a long template that needs more than one read to arrive completely
// line 229 of a long template that needs more than one read to arrive completely
// line 230 of a long template that needs more than one read to arrive completely
// line 231 of a long template that needs more than one read to arrive completely
// line 232 of a long template that needs more than one read to arrive completely
// line 233 of a long template that needs more than one read to arrive completely
// line 234 of a long template that needs more than one read to arrive completely
// line 235 of a long template that needs more than one read to arrive completely
// line 236 of a long template that needs more than one read to arrive completely
// line 237 of a long template that needs more than one read to arrive completely
// line 238 of a long template that needs more than one read to arrive completely
// line 239 of a long template that needs more than one read to arrive completely
// line 240 of a long template that needs more than one read to arrive completely
// line 241 of a long template that needs more than one read to arrive completely
// line 242 of a long template that needs more than one read to arrive completely
// line 243 of a long template that needs more than one read to arrive completely
// line 244 of a long template that needs more than one read to arrive completely
// line 245 of a long template that needs more than one read to arrive completely
// line 246 of a long template that needs more than one read to arrive completely
// line 247 of a long template that needs more than one read to arrive completely
// line 248 of a long template that needs more than one read to arrive completely
// line 249 of a long template that needs more than one read to arrive completely
// line 250 of a long template that needs more than one read to arrive completely
// line 251 of a long template that needs more than one read to arrive completely
// line 252 of a long template that needs more than one read to arrive completely
// line 253 of a long template that needs more than one read to arrive completely
// line 254 of a long template that needs more than one read to arrive completely
// line 255 of a long template that needs more than one read to arrive completely
// line 256 of a long template that needs more than one read to arrive completely
// line 257 of a long template that needs more than one read to arrive completely
// line 258 of a long template that needs more than one read to arrive completely
// line 259 of a long template that needs more than one read to arrive completely
// line 260 of a long template that needs more than one read to arrive completely
// line 261 of a long template that needs more than one read to arrive completely
// line 262 of a long template that needs more than one read to arrive completely
// line 263 of a long template that needs more than one read to arrive completely
// line 264 of a long template that needs more than one read to arrive completely
// line 265 of a long template that needs more than one read to arrive completely
// line 266 of a long template that needs more than one read to arrive completely
// line 267 of a long template that needs more than one read to arrive completely
// line 268 of a long template that needs more than one read to arrive completely
// line 269 of a long template that needs more than one read to arrive completely
// line 270 of a long template that needs more than one read to arrive completely
// line 271 of a long template that needs more than one read to arrive completely
// line 272 of a long template that needs more than one read to arrive completely
// line 273 of a long template that needs more than one read to arrive completely
// line 274 of a long template that needs more than one read to arrive completely
// line 275 of a long template that needs more than one read to arrive completely
// line 276 of a long template that needs more than one read to arrive completely
// line 277 of a long template that needs more than one read to arrive completely
// line 278 of a long template that needs more than one read to arrive completely
// line 279 of a long template that needs more than one read to arrive completely
// line 280 of a long template that needs more than one read to arrive completely
// line 281 of a long template that needs more than one read to arrive completely
// line 282 of a long template that needs more than one read to arrive completely
// line 283 of a long template that needs more than one read to arrive completely
// line 284 of a long template that needs more than one read to arrive completely
// line 285 of a long template that needs more than one read to arrive completely
// line 286 of a long template that needs more than one read to arrive completely
// line 287 of a long template that needs more than one read to arrive completely
// line 288 of a long template that needs more than one read to arrive completely
// line 289 of a long template that needs more than one read to arrive completely
// line 290 of a long template that needs more than one read to arrive completely
// line 291 of a long template that needs more than one read to arrive completely
// line 292 of a long template that needs more than one read to arrive completely
// line 293 of a long template that needs more than one read to arrive completely
// line 294 of a long template that needs more than one read to arrive completely
// line 295 of a long template that needs more than one read to arrive completely
// line 296 of a long template that needs more than one read to arrive completely
// line 297 of a long template that needs more than one read to arrive completely
// line 298 of a long template that needs more than one read to arrive completely
// line 299 of a long template that needs more than one read to arrive completely
// line 300 of a long template that needs more than one read to arrive completely
// line 301 of a long template that needs more than one read to arrive completely
// line 302 of a long template that needs more than one read to arrive completely
// line 303 of a long template that needs more than one read to arrive completely
// line 304 of a long template that needs more than one read to arrive completely
// line 305 of a long template that needs more than one read to arrive completely
// line 306 of a long template that needs more than one read to arrive completely
// line 307 of a long template that needs more than one read to arrive completely
// line 308 of a long template that needs more than one read to arrive completely
// line 309 of a long template that needs more than one read to arrive completely
// line 310 of a long template that needs more than one read to arrive completely
// line 311 of a long template that needs more than one read to arrive completely
// line 312 of a long template that needs more than one read to arrive completely
// line 313 of a long template that needs more than one read to arrive completely
// line 314 of a long template that needs more than one read to arrive completely
// line 315 of a long template that needs more than one read to arrive completely
// line 316 of a long template that needs more than one read to arrive completely
// line 317 of a long template that needs more than one read to arrive completely
// line 318 of a long template that needs more than one read to arrive completely
// line 319 of a long template that needs more than one read to arrive completely
// line 320 of a long template that needs more than one read to arrive completely
// line 321 of a long template that needs more than one read to arrive completely
// line 322 of a long template that needs more than one read to arrive completely
// line 323 of a long template that needs more than one read to arrive completely
// line 324 of a long template that needs more than one read to arrive completely
// line 325 of a long template that needs more than one read to arrive completely
// line 326 of a long template that needs more than one read to arrive completely
// line 327 of a long template that needs more than one read to arrive completely
// line 328 of a long template that needs more than one read to arrive completely
// line 329 of a long template that needs more than one read to arrive completely
// line 330 of a long template that needs more than one read to arrive completely
// line 331 of a long template that needs more than one read to arrive completely
// line 332 of a long template that needs more than one read to arrive completely
// line 333 of a long template that needs more than one read to arrive completely
// line 334 of a long template that needs more than one read to arrive completely
// line 335 of a long template that needs more than one read to arrive completely
// line 336 of a long template that needs more than one read to arrive completely
// line 337 of a long template that needs more than one read to arrive completely
// line 338 of a long template that needs more than one read to arrive completely
// line 339 of a long template that needs more than one read to arrive completely
// line 340 of a long template that needs more than one read to arrive completely
// line 341 of a long template that needs more than one read to arrive completely
// line 342 of a long template that needs more than one read to arrive completely
// line 343 of a long template that needs more than one read to arrive completely
// line 344 of a long template that needs more than one read to arrive completely
// line 345 of a long template that needs more than one read to arrive completely
// line 346 of a long template that needs more than one read to arrive completely
// line 347 of a long template that needs more than one read to arrive completely
// line 348 of a long template that needs more than one read to arrive completely
// line 349 of a long template that needs more than one read to arrive completely
// line 350 of a long template that needs more than one read to arrive completely
// line 351 of a long template that needs more than one read to arrive completely
// line 352 of a long template that needs more than one read to arrive completely
// line 353 of a long template that needs more than one read to arrive completely
// line 354 of a long template that needs more than one read to arrive completely
// line 355 of a long template that needs more than one read to arrive completely
// line 356 of a long template that needs more than one read to arrive completely
// line 357 of a long template that needs more than one read to arrive completely
// line 358 of a long template that needs more than one read to arrive completely
// line 359 of a long template that needs more than one read to arrive completely
// line 360 of a long template that needs more than one read to arrive completely
// line 361 of a long template that needs more than one read to arrive completely
// line 362 of a long template that needs more than one read to arrive completely
// line 363 of a long template that needs more than one read to arrive completely
// line 364 of a long template that needs more than one read to arrive completely
// line 365 of a long template that needs more than one read to arrive completely
// line 366 of a long template that needs more than one read to arrive completely
// line 367 of a long template that needs more than one read to arrive completely
// line 368 of a long template that needs more than one read to arrive completely
// line 369 of a long template that needs more than one read to arrive completely
// line 370 of a long template that needs more than one read to arrive completely
// line 371 of a long template that needs more than one read to arrive completely
// line 372 of a long template that needs more than one read to arrive completely
// line 373 of a long template that needs more than one read to arrive completely
// line 374 of a long template that needs more than one read to arrive completely
// line 375 of a long template that needs more than one read to arrive completely
// line 376 of a long template that needs more than one read to arrive completely
// line 377 of a long template that needs more than one read to arrive completely
// line 378 of a long template that needs more than one read to arrive completely
// line 379 of a long template that needs more than one read to arrive completely
// line 380 of a long template that needs more than one read to arrive completely
// line 381 of a long template that needs more than one read to arrive completely
// line 382 of a long template that needs more than one read to arrive completely
// line 383 of a long template that needs more than one read to arrive completely
// line 384 of a long template that needs more than one read to arrive completely
// line 385 of a long template that needs more than one read to arrive completely
// line 386 of a long template that needs more than one read to arrive completely
// line 387 of a long template that needs more than one read to arrive completely
// line 388 of a long template that needs more than one read to arrive completely
// line 389 of a long template that needs more than one read to arrive completely
// line 390 of a long template that needs more than one read to arrive completely
// line 391 of a long template that needs more than one read to arrive completely
// line 392 of a long template that needs more than one read to arrive completely
// line 393 of a long template that needs more than one read to arrive completely
// line 394 of a long template that needs more than one read to arrive completely
// line 395 of a long template that needs more than one read to arrive completely
// line 396 of a long template that needs more than one read to arrive completely
// line 397 of a long template that needs more than one read to arrive completely
// line 398 of a long template that needs more than one read to arrive completely
// line 399 of a long template that needs more than one read to arrive completely
{{range $name, $method := .Interface.Methods}}
func ({{$.Interface.Name}}Big) Z{{$name}}() string { return "{{$method.Call}}" }
{{end}}
