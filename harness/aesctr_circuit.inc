unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[] =
"128 384\n"
"2 128 128\n"
"1 128\n"
"\n"
"2 1 5 135 256 AND\n"
"2 1 8 140 257 AND\n"
"2 1 11 145 258 AND\n"
"2 1 14 150 259 AND\n"
"2 1 17 155 260 AND\n"
"2 1 20 160 261 AND\n"
"2 1 23 165 262 AND\n"
"2 1 26 170 263 AND\n"
"2 1 29 175 264 AND\n"
"2 1 32 180 265 AND\n"
"2 1 35 185 266 AND\n"
"2 1 38 190 267 AND\n"
"2 1 41 195 268 AND\n"
"2 1 44 200 269 AND\n"
"2 1 47 205 270 AND\n"
"2 1 50 210 271 AND\n"
"2 1 53 215 272 AND\n"
"2 1 56 220 273 AND\n"
"2 1 59 225 274 AND\n"
"2 1 62 230 275 AND\n"
"2 1 65 235 276 AND\n"
"2 1 68 240 277 AND\n"
"2 1 71 245 278 AND\n"
"2 1 74 250 279 AND\n"
"2 1 77 255 280 AND\n"
"2 1 80 132 281 AND\n"
"2 1 83 137 282 AND\n"
"2 1 86 142 283 AND\n"
"2 1 89 147 284 AND\n"
"2 1 92 152 285 AND\n"
"2 1 95 157 286 AND\n"
"2 1 98 162 287 AND\n"
"2 1 101 167 288 AND\n"
"2 1 104 172 289 AND\n"
"2 1 107 177 290 AND\n"
"2 1 110 182 291 AND\n"
"2 1 113 187 292 AND\n"
"2 1 116 192 293 AND\n"
"2 1 119 197 294 AND\n"
"2 1 122 202 295 AND\n"
"2 1 125 207 296 AND\n"
"2 1 0 212 297 AND\n"
"2 1 3 217 298 AND\n"
"2 1 6 222 299 AND\n"
"2 1 9 227 300 AND\n"
"2 1 12 232 301 AND\n"
"2 1 15 237 302 AND\n"
"2 1 18 242 303 AND\n"
"2 1 21 247 304 AND\n"
"2 1 24 252 305 AND\n"
"2 1 27 129 306 AND\n"
"2 1 30 134 307 AND\n"
"2 1 33 139 308 AND\n"
"2 1 36 144 309 AND\n"
"2 1 39 149 310 AND\n"
"2 1 42 154 311 AND\n"
"2 1 45 159 312 AND\n"
"2 1 48 164 313 AND\n"
"2 1 51 169 314 AND\n"
"2 1 54 174 315 AND\n"
"2 1 57 179 316 AND\n"
"2 1 60 184 317 AND\n"
"2 1 63 189 318 AND\n"
"2 1 66 194 319 AND\n"
"2 1 69 199 320 AND\n"
"2 1 72 204 321 AND\n"
"2 1 75 209 322 AND\n"
"2 1 78 214 323 AND\n"
"2 1 81 219 324 AND\n"
"2 1 84 224 325 AND\n"
"2 1 87 229 326 AND\n"
"2 1 90 234 327 AND\n"
"2 1 93 239 328 AND\n"
"2 1 96 244 329 AND\n"
"2 1 99 249 330 AND\n"
"2 1 102 254 331 AND\n"
"2 1 105 131 332 AND\n"
"2 1 108 136 333 AND\n"
"2 1 111 141 334 AND\n"
"2 1 114 146 335 AND\n"
"2 1 117 151 336 AND\n"
"2 1 120 156 337 AND\n"
"2 1 123 161 338 AND\n"
"2 1 126 166 339 AND\n"
"2 1 1 171 340 AND\n"
"2 1 4 176 341 AND\n"
"2 1 7 181 342 AND\n"
"2 1 10 186 343 AND\n"
"2 1 13 191 344 AND\n"
"2 1 16 196 345 AND\n"
"2 1 19 201 346 AND\n"
"2 1 22 206 347 AND\n"
"2 1 25 211 348 AND\n"
"2 1 28 216 349 AND\n"
"2 1 31 221 350 AND\n"
"2 1 34 226 351 AND\n"
"2 1 37 231 352 AND\n"
"2 1 40 236 353 AND\n"
"2 1 43 241 354 AND\n"
"2 1 46 246 355 AND\n"
"2 1 49 251 356 AND\n"
"2 1 52 128 357 AND\n"
"2 1 55 133 358 AND\n"
"2 1 58 138 359 AND\n"
"2 1 61 143 360 AND\n"
"2 1 64 148 361 AND\n"
"2 1 67 153 362 AND\n"
"2 1 70 158 363 AND\n"
"2 1 73 163 364 AND\n"
"2 1 76 168 365 AND\n"
"2 1 79 173 366 AND\n"
"2 1 82 178 367 AND\n"
"2 1 85 183 368 AND\n"
"2 1 88 188 369 AND\n"
"2 1 91 193 370 AND\n"
"2 1 94 198 371 AND\n"
"2 1 97 203 372 AND\n"
"2 1 100 208 373 AND\n"
"2 1 103 213 374 AND\n"
"2 1 106 218 375 AND\n"
"2 1 109 223 376 AND\n"
"2 1 112 228 377 AND\n"
"2 1 115 233 378 AND\n"
"2 1 118 238 379 AND\n"
"2 1 121 243 380 AND\n"
"2 1 124 248 381 AND\n"
"2 1 127 253 382 AND\n"
"2 1 2 130 383 AND\n";
unsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len = 2475;
