unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[] =
"1600 3200\n"
"1 1600\n"
"1 1600\n"
"\n"
"2 1 5 11 1600 AND\n"
"2 1 8 18 1601 AND\n"
"2 1 11 25 1602 AND\n"
"2 1 14 32 1603 AND\n"
"2 1 17 39 1604 AND\n"
"2 1 20 46 1605 AND\n"
"2 1 23 53 1606 AND\n"
"2 1 26 60 1607 AND\n"
"2 1 29 67 1608 AND\n"
"2 1 32 74 1609 AND\n"
"2 1 35 81 1610 AND\n"
"2 1 38 88 1611 AND\n"
"2 1 41 95 1612 AND\n"
"2 1 44 102 1613 AND\n"
"2 1 47 109 1614 AND\n"
"2 1 50 116 1615 AND\n"
"2 1 53 123 1616 AND\n"
"2 1 56 130 1617 AND\n"
"2 1 59 137 1618 AND\n"
"2 1 62 144 1619 AND\n"
"2 1 65 151 1620 AND\n"
"2 1 68 158 1621 AND\n"
"2 1 71 165 1622 AND\n"
"2 1 74 172 1623 AND\n"
"2 1 77 179 1624 AND\n"
"2 1 80 186 1625 AND\n"
"2 1 83 193 1626 AND\n"
"2 1 86 200 1627 AND\n"
"2 1 89 207 1628 AND\n"
"2 1 92 214 1629 AND\n"
"2 1 95 221 1630 AND\n"
"2 1 98 228 1631 AND\n"
"2 1 101 235 1632 AND\n"
"2 1 104 242 1633 AND\n"
"2 1 107 249 1634 AND\n"
"2 1 110 256 1635 AND\n"
"2 1 113 263 1636 AND\n"
"2 1 116 270 1637 AND\n"
"2 1 119 277 1638 AND\n"
"2 1 122 284 1639 AND\n"
"2 1 125 291 1640 AND\n"
"2 1 128 298 1641 AND\n"
"2 1 131 305 1642 AND\n"
"2 1 134 312 1643 AND\n"
"2 1 137 319 1644 AND\n"
"2 1 140 326 1645 AND\n"
"2 1 143 333 1646 AND\n"
"2 1 146 340 1647 AND\n"
"2 1 149 347 1648 AND\n"
"2 1 152 354 1649 AND\n"
"2 1 155 361 1650 AND\n"
"2 1 158 368 1651 AND\n"
"2 1 161 375 1652 AND\n"
"2 1 164 382 1653 AND\n"
"2 1 167 389 1654 AND\n"
"2 1 170 396 1655 AND\n"
"2 1 173 403 1656 AND\n"
"2 1 176 410 1657 AND\n"
"2 1 179 417 1658 AND\n"
"2 1 182 424 1659 AND\n"
"2 1 185 431 1660 AND\n"
"2 1 188 438 1661 AND\n"
"2 1 191 445 1662 AND\n"
"2 1 194 452 1663 AND\n"
"2 1 197 459 1664 AND\n"
"2 1 200 466 1665 AND\n"
"2 1 203 473 1666 AND\n"
"2 1 206 480 1667 AND\n"
"2 1 209 487 1668 AND\n"
"2 1 212 494 1669 AND\n"
"2 1 215 501 1670 AND\n"
"2 1 218 508 1671 AND\n"
"2 1 221 515 1672 AND\n"
"2 1 224 522 1673 AND\n"
"2 1 227 529 1674 AND\n"
"2 1 230 536 1675 AND\n"
"2 1 233 543 1676 AND\n"
"2 1 236 550 1677 AND\n"
"2 1 239 557 1678 AND\n"
"2 1 242 564 1679 AND\n"
"2 1 245 571 1680 AND\n"
"2 1 248 578 1681 AND\n"
"2 1 251 585 1682 AND\n"
"2 1 254 592 1683 AND\n"
"2 1 257 599 1684 AND\n"
"2 1 260 606 1685 AND\n"
"2 1 263 613 1686 AND\n"
"2 1 266 620 1687 AND\n"
"2 1 269 627 1688 AND\n"
"2 1 272 634 1689 AND\n"
"2 1 275 641 1690 AND\n"
"2 1 278 648 1691 AND\n"
"2 1 281 655 1692 AND\n"
"2 1 284 662 1693 AND\n"
"2 1 287 669 1694 AND\n"
"2 1 290 676 1695 AND\n"
"2 1 293 683 1696 AND\n"
"2 1 296 690 1697 AND\n"
"2 1 299 697 1698 AND\n"
"2 1 302 704 1699 AND\n"
"2 1 305 711 1700 AND\n"
"2 1 308 718 1701 AND\n"
"2 1 311 725 1702 AND\n"
"2 1 314 732 1703 AND\n"
"2 1 317 739 1704 AND\n"
"2 1 320 746 1705 AND\n"
"2 1 323 753 1706 AND\n"
"2 1 326 760 1707 AND\n"
"2 1 329 767 1708 AND\n"
"2 1 332 774 1709 AND\n"
"2 1 335 781 1710 AND\n"
"2 1 338 788 1711 AND\n"
"2 1 341 795 1712 AND\n"
"2 1 344 802 1713 AND\n"
"2 1 347 809 1714 AND\n"
"2 1 350 816 1715 AND\n"
"2 1 353 823 1716 AND\n"
"2 1 356 830 1717 AND\n"
"2 1 359 837 1718 AND\n"
"2 1 362 844 1719 AND\n"
"2 1 365 851 1720 AND\n"
"2 1 368 858 1721 AND\n"
"2 1 371 865 1722 AND\n"
"2 1 374 872 1723 AND\n"
"2 1 377 879 1724 AND\n"
"2 1 380 886 1725 AND\n"
"2 1 383 893 1726 AND\n"
"2 1 386 900 1727 AND\n"
"2 1 389 907 1728 AND\n"
"2 1 392 914 1729 AND\n"
"2 1 395 921 1730 AND\n"
"2 1 398 928 1731 AND\n"
"2 1 401 935 1732 AND\n"
"2 1 404 942 1733 AND\n"
"2 1 407 949 1734 AND\n"
"2 1 410 956 1735 AND\n"
"2 1 413 963 1736 AND\n"
"2 1 416 970 1737 AND\n"
"2 1 419 977 1738 AND\n"
"2 1 422 984 1739 AND\n"
"2 1 425 991 1740 AND\n"
"2 1 428 998 1741 AND\n"
"2 1 431 1005 1742 AND\n"
"2 1 434 1012 1743 AND\n"
"2 1 437 1019 1744 AND\n"
"2 1 440 1026 1745 AND\n"
"2 1 443 1033 1746 AND\n"
"2 1 446 1040 1747 AND\n"
"2 1 449 1047 1748 AND\n"
"2 1 452 1054 1749 AND\n"
"2 1 455 1061 1750 AND\n"
"2 1 458 1068 1751 AND\n"
"2 1 461 1075 1752 AND\n"
"2 1 464 1082 1753 AND\n"
"2 1 467 1089 1754 AND\n"
"2 1 470 1096 1755 AND\n"
"2 1 473 1103 1756 AND\n"
"2 1 476 1110 1757 AND\n"
"2 1 479 1117 1758 AND\n"
"2 1 482 1124 1759 AND\n"
"2 1 485 1131 1760 AND\n"
"2 1 488 1138 1761 AND\n"
"2 1 491 1145 1762 AND\n"
"2 1 494 1152 1763 AND\n"
"2 1 497 1159 1764 AND\n"
"2 1 500 1166 1765 AND\n"
"2 1 503 1173 1766 AND\n"
"2 1 506 1180 1767 AND\n"
"2 1 509 1187 1768 AND\n"
"2 1 512 1194 1769 AND\n"
"2 1 515 1201 1770 AND\n"
"2 1 518 1208 1771 AND\n"
"2 1 521 1215 1772 AND\n"
"2 1 524 1222 1773 AND\n"
"2 1 527 1229 1774 AND\n"
"2 1 530 1236 1775 AND\n"
"2 1 533 1243 1776 AND\n"
"2 1 536 1250 1777 AND\n"
"2 1 539 1257 1778 AND\n"
"2 1 542 1264 1779 AND\n"
"2 1 545 1271 1780 AND\n"
"2 1 548 1278 1781 AND\n"
"2 1 551 1285 1782 AND\n"
"2 1 554 1292 1783 AND\n"
"2 1 557 1299 1784 AND\n"
"2 1 560 1306 1785 AND\n"
"2 1 563 1313 1786 AND\n"
"2 1 566 1320 1787 AND\n"
"2 1 569 1327 1788 AND\n"
"2 1 572 1334 1789 AND\n"
"2 1 575 1341 1790 AND\n"
"2 1 578 1348 1791 AND\n"
"2 1 581 1355 1792 AND\n"
"2 1 584 1362 1793 AND\n"
"2 1 587 1369 1794 AND\n"
"2 1 590 1376 1795 AND\n"
"2 1 593 1383 1796 AND\n"
"2 1 596 1390 1797 AND\n"
"2 1 599 1397 1798 AND\n"
"2 1 602 1404 1799 AND\n"
"2 1 605 1411 1800 AND\n"
"2 1 608 1418 1801 AND\n"
"2 1 611 1425 1802 AND\n"
"2 1 614 1432 1803 AND\n"
"2 1 617 1439 1804 AND\n"
"2 1 620 1446 1805 AND\n"
"2 1 623 1453 1806 AND\n"
"2 1 626 1460 1807 AND\n"
"2 1 629 1467 1808 AND\n"
"2 1 632 1474 1809 AND\n"
"2 1 635 1481 1810 AND\n"
"2 1 638 1488 1811 AND\n"
"2 1 641 1495 1812 AND\n"
"2 1 644 1502 1813 AND\n"
"2 1 647 1509 1814 AND\n"
"2 1 650 1516 1815 AND\n"
"2 1 653 1523 1816 AND\n"
"2 1 656 1530 1817 AND\n"
"2 1 659 1537 1818 AND\n"
"2 1 662 1544 1819 AND\n"
"2 1 665 1551 1820 AND\n"
"2 1 668 1558 1821 AND\n"
"2 1 671 1565 1822 AND\n"
"2 1 674 1572 1823 AND\n"
"2 1 677 1579 1824 AND\n"
"2 1 680 1586 1825 AND\n"
"2 1 683 1593 1826 AND\n"
"2 1 686 0 1827 AND\n"
"2 1 689 7 1828 AND\n"
"2 1 692 14 1829 AND\n"
"2 1 695 21 1830 AND\n"
"2 1 698 28 1831 AND\n"
"2 1 701 35 1832 AND\n"
"2 1 704 42 1833 AND\n"
"2 1 707 49 1834 AND\n"
"2 1 710 56 1835 AND\n"
"2 1 713 63 1836 AND\n"
"2 1 716 70 1837 AND\n"
"2 1 719 77 1838 AND\n"
"2 1 722 84 1839 AND\n"
"2 1 725 91 1840 AND\n"
"2 1 728 98 1841 AND\n"
"2 1 731 105 1842 AND\n"
"2 1 734 112 1843 AND\n"
"2 1 737 119 1844 AND\n"
"2 1 740 126 1845 AND\n"
"2 1 743 133 1846 AND\n"
"2 1 746 140 1847 AND\n"
"2 1 749 147 1848 AND\n"
"2 1 752 154 1849 AND\n"
"2 1 755 161 1850 AND\n"
"2 1 758 168 1851 AND\n"
"2 1 761 175 1852 AND\n"
"2 1 764 182 1853 AND\n"
"2 1 767 189 1854 AND\n"
"2 1 770 196 1855 AND\n"
"2 1 773 203 1856 AND\n"
"2 1 776 210 1857 AND\n"
"2 1 779 217 1858 AND\n"
"2 1 782 224 1859 AND\n"
"2 1 785 231 1860 AND\n"
"2 1 788 238 1861 AND\n"
"2 1 791 245 1862 AND\n"
"2 1 794 252 1863 AND\n"
"2 1 797 259 1864 AND\n"
"2 1 800 266 1865 AND\n"
"2 1 803 273 1866 AND\n"
"2 1 806 280 1867 AND\n"
"2 1 809 287 1868 AND\n"
"2 1 812 294 1869 AND\n"
"2 1 815 301 1870 AND\n"
"2 1 818 308 1871 AND\n"
"2 1 821 315 1872 AND\n"
"2 1 824 322 1873 AND\n"
"2 1 827 329 1874 AND\n"
"2 1 830 336 1875 AND\n"
"2 1 833 343 1876 AND\n"
"2 1 836 350 1877 AND\n"
"2 1 839 357 1878 AND\n"
"2 1 842 364 1879 AND\n"
"2 1 845 371 1880 AND\n"
"2 1 848 378 1881 AND\n"
"2 1 851 385 1882 AND\n"
"2 1 854 392 1883 AND\n"
"2 1 857 399 1884 AND\n"
"2 1 860 406 1885 AND\n"
"2 1 863 413 1886 AND\n"
"2 1 866 420 1887 AND\n"
"2 1 869 427 1888 AND\n"
"2 1 872 434 1889 AND\n"
"2 1 875 441 1890 AND\n"
"2 1 878 448 1891 AND\n"
"2 1 881 455 1892 AND\n"
"2 1 884 462 1893 AND\n"
"2 1 887 469 1894 AND\n"
"2 1 890 476 1895 AND\n"
"2 1 893 483 1896 AND\n"
"2 1 896 490 1897 AND\n"
"2 1 899 497 1898 AND\n"
"2 1 902 504 1899 AND\n"
"2 1 905 511 1900 AND\n"
"2 1 908 518 1901 AND\n"
"2 1 911 525 1902 AND\n"
"2 1 914 532 1903 AND\n"
"2 1 917 539 1904 AND\n"
"2 1 920 546 1905 AND\n"
"2 1 923 553 1906 AND\n"
"2 1 926 560 1907 AND\n"
"2 1 929 567 1908 AND\n"
"2 1 932 574 1909 AND\n"
"2 1 935 581 1910 AND\n"
"2 1 938 588 1911 AND\n"
"2 1 941 595 1912 AND\n"
"2 1 944 602 1913 AND\n"
"2 1 947 609 1914 AND\n"
"2 1 950 616 1915 AND\n"
"2 1 953 623 1916 AND\n"
"2 1 956 630 1917 AND\n"
"2 1 959 637 1918 AND\n"
"2 1 962 644 1919 AND\n"
"2 1 965 651 1920 AND\n"
"2 1 968 658 1921 AND\n"
"2 1 971 665 1922 AND\n"
"2 1 974 672 1923 AND\n"
"2 1 977 679 1924 AND\n"
"2 1 980 686 1925 AND\n"
"2 1 983 693 1926 AND\n"
"2 1 986 700 1927 AND\n"
"2 1 989 707 1928 AND\n"
"2 1 992 714 1929 AND\n"
"2 1 995 721 1930 AND\n"
"2 1 998 728 1931 AND\n"
"2 1 1001 735 1932 AND\n"
"2 1 1004 742 1933 AND\n"
"2 1 1007 749 1934 AND\n"
"2 1 1010 756 1935 AND\n"
"2 1 1013 763 1936 AND\n"
"2 1 1016 770 1937 AND\n"
"2 1 1019 777 1938 AND\n"
"2 1 1022 784 1939 AND\n"
"2 1 1025 791 1940 AND\n"
"2 1 1028 798 1941 AND\n"
"2 1 1031 805 1942 AND\n"
"2 1 1034 812 1943 AND\n"
"2 1 1037 819 1944 AND\n"
"2 1 1040 826 1945 AND\n"
"2 1 1043 833 1946 AND\n"
"2 1 1046 840 1947 AND\n"
"2 1 1049 847 1948 AND\n"
"2 1 1052 854 1949 AND\n"
"2 1 1055 861 1950 AND\n"
"2 1 1058 868 1951 AND\n"
"2 1 1061 875 1952 AND\n"
"2 1 1064 882 1953 AND\n"
"2 1 1067 889 1954 AND\n"
"2 1 1070 896 1955 AND\n"
"2 1 1073 903 1956 AND\n"
"2 1 1076 910 1957 AND\n"
"2 1 1079 917 1958 AND\n"
"2 1 1082 924 1959 AND\n"
"2 1 1085 931 1960 AND\n"
"2 1 1088 938 1961 AND\n"
"2 1 1091 945 1962 AND\n"
"2 1 1094 952 1963 AND\n"
"2 1 1097 959 1964 AND\n"
"2 1 1100 966 1965 AND\n"
"2 1 1103 973 1966 AND\n"
"2 1 1106 980 1967 AND\n"
"2 1 1109 987 1968 AND\n"
"2 1 1112 994 1969 AND\n"
"2 1 1115 1001 1970 AND\n"
"2 1 1118 1008 1971 AND\n"
"2 1 1121 1015 1972 AND\n"
"2 1 1124 1022 1973 AND\n"
"2 1 1127 1029 1974 AND\n"
"2 1 1130 1036 1975 AND\n"
"2 1 1133 1043 1976 AND\n"
"2 1 1136 1050 1977 AND\n"
"2 1 1139 1057 1978 AND\n"
"2 1 1142 1064 1979 AND\n"
"2 1 1145 1071 1980 AND\n"
"2 1 1148 1078 1981 AND\n"
"2 1 1151 1085 1982 AND\n"
"2 1 1154 1092 1983 AND\n"
"2 1 1157 1099 1984 AND\n"
"2 1 1160 1106 1985 AND\n"
"2 1 1163 1113 1986 AND\n"
"2 1 1166 1120 1987 AND\n"
"2 1 1169 1127 1988 AND\n"
"2 1 1172 1134 1989 AND\n"
"2 1 1175 1141 1990 AND\n"
"2 1 1178 1148 1991 AND\n"
"2 1 1181 1155 1992 AND\n"
"2 1 1184 1162 1993 AND\n"
"2 1 1187 1169 1994 AND\n"
"2 1 1190 1176 1995 AND\n"
"2 1 1193 1183 1996 AND\n"
"2 1 1196 1190 1997 AND\n"
"2 1 1199 1197 1998 AND\n"
"2 1 1202 1204 1999 AND\n"
"2 1 1205 1211 2000 AND\n"
"2 1 1208 1218 2001 AND\n"
"2 1 1211 1225 2002 AND\n"
"2 1 1214 1232 2003 AND\n"
"2 1 1217 1239 2004 AND\n"
"2 1 1220 1246 2005 AND\n"
"2 1 1223 1253 2006 AND\n"
"2 1 1226 1260 2007 AND\n"
"2 1 1229 1267 2008 AND\n"
"2 1 1232 1274 2009 AND\n"
"2 1 1235 1281 2010 AND\n"
"2 1 1238 1288 2011 AND\n"
"2 1 1241 1295 2012 AND\n"
"2 1 1244 1302 2013 AND\n"
"2 1 1247 1309 2014 AND\n"
"2 1 1250 1316 2015 AND\n"
"2 1 1253 1323 2016 AND\n"
"2 1 1256 1330 2017 AND\n"
"2 1 1259 1337 2018 AND\n"
"2 1 1262 1344 2019 AND\n"
"2 1 1265 1351 2020 AND\n"
"2 1 1268 1358 2021 AND\n"
"2 1 1271 1365 2022 AND\n"
"2 1 1274 1372 2023 AND\n"
"2 1 1277 1379 2024 AND\n"
"2 1 1280 1386 2025 AND\n"
"2 1 1283 1393 2026 AND\n"
"2 1 1286 1400 2027 AND\n"
"2 1 1289 1407 2028 AND\n"
"2 1 1292 1414 2029 AND\n"
"2 1 1295 1421 2030 AND\n"
"2 1 1298 1428 2031 AND\n"
"2 1 1301 1435 2032 AND\n"
"2 1 1304 1442 2033 AND\n"
"2 1 1307 1449 2034 AND\n"
"2 1 1310 1456 2035 AND\n"
"2 1 1313 1463 2036 AND\n"
"2 1 1316 1470 2037 AND\n"
"2 1 1319 1477 2038 AND\n"
"2 1 1322 1484 2039 AND\n"
"2 1 1325 1491 2040 AND\n"
"2 1 1328 1498 2041 AND\n"
"2 1 1331 1505 2042 AND\n"
"2 1 1334 1512 2043 AND\n"
"2 1 1337 1519 2044 AND\n"
"2 1 1340 1526 2045 AND\n"
"2 1 1343 1533 2046 AND\n"
"2 1 1346 1540 2047 AND\n"
"2 1 1349 1547 2048 AND\n"
"2 1 1352 1554 2049 AND\n"
"2 1 1355 1561 2050 AND\n"
"2 1 1358 1568 2051 AND\n"
"2 1 1361 1575 2052 AND\n"
"2 1 1364 1582 2053 AND\n"
"2 1 1367 1589 2054 AND\n"
"2 1 1370 1596 2055 AND\n"
"2 1 1373 3 2056 AND\n"
"2 1 1376 10 2057 AND\n"
"2 1 1379 17 2058 AND\n"
"2 1 1382 24 2059 AND\n"
"2 1 1385 31 2060 AND\n"
"2 1 1388 38 2061 AND\n"
"2 1 1391 45 2062 AND\n"
"2 1 1394 52 2063 AND\n"
"2 1 1397 59 2064 AND\n"
"2 1 1400 66 2065 AND\n"
"2 1 1403 73 2066 AND\n"
"2 1 1406 80 2067 AND\n"
"2 1 1409 87 2068 AND\n"
"2 1 1412 94 2069 AND\n"
"2 1 1415 101 2070 AND\n"
"2 1 1418 108 2071 AND\n"
"2 1 1421 115 2072 AND\n"
"2 1 1424 122 2073 AND\n"
"2 1 1427 129 2074 AND\n"
"2 1 1430 136 2075 AND\n"
"2 1 1433 143 2076 AND\n"
"2 1 1436 150 2077 AND\n"
"2 1 1439 157 2078 AND\n"
"2 1 1442 164 2079 AND\n"
"2 1 1445 171 2080 AND\n"
"2 1 1448 178 2081 AND\n"
"2 1 1451 185 2082 AND\n"
"2 1 1454 192 2083 AND\n"
"2 1 1457 199 2084 AND\n"
"2 1 1460 206 2085 AND\n"
"2 1 1463 213 2086 AND\n"
"2 1 1466 220 2087 AND\n"
"2 1 1469 227 2088 AND\n"
"2 1 1472 234 2089 AND\n"
"2 1 1475 241 2090 AND\n"
"2 1 1478 248 2091 AND\n"
"2 1 1481 255 2092 AND\n"
"2 1 1484 262 2093 AND\n"
"2 1 1487 269 2094 AND\n"
"2 1 1490 276 2095 AND\n"
"2 1 1493 283 2096 AND\n"
"2 1 1496 290 2097 AND\n"
"2 1 1499 297 2098 AND\n"
"2 1 1502 304 2099 AND\n"
"2 1 1505 311 2100 AND\n"
"2 1 1508 318 2101 AND\n"
"2 1 1511 325 2102 AND\n"
"2 1 1514 332 2103 AND\n"
"2 1 1517 339 2104 AND\n"
"2 1 1520 346 2105 AND\n"
"2 1 1523 353 2106 AND\n"
"2 1 1526 360 2107 AND\n"
"2 1 1529 367 2108 AND\n"
"2 1 1532 374 2109 AND\n"
"2 1 1535 381 2110 AND\n"
"2 1 1538 388 2111 AND\n"
"2 1 1541 395 2112 AND\n"
"2 1 1544 402 2113 AND\n"
"2 1 1547 409 2114 AND\n"
"2 1 1550 416 2115 AND\n"
"2 1 1553 423 2116 AND\n"
"2 1 1556 430 2117 AND\n"
"2 1 1559 437 2118 AND\n"
"2 1 1562 444 2119 AND\n"
"2 1 1565 451 2120 AND\n"
"2 1 1568 458 2121 AND\n"
"2 1 1571 465 2122 AND\n"
"2 1 1574 472 2123 AND\n"
"2 1 1577 479 2124 AND\n"
"2 1 1580 486 2125 AND\n"
"2 1 1583 493 2126 AND\n"
"2 1 1586 500 2127 AND\n"
"2 1 1589 507 2128 AND\n"
"2 1 1592 514 2129 AND\n"
"2 1 1595 521 2130 AND\n"
"2 1 1598 528 2131 AND\n"
"2 1 1 535 2132 AND\n"
"2 1 4 542 2133 AND\n"
"2 1 7 549 2134 AND\n"
"2 1 10 556 2135 AND\n"
"2 1 13 563 2136 AND\n"
"2 1 16 570 2137 AND\n"
"2 1 19 577 2138 AND\n"
"2 1 22 584 2139 AND\n"
"2 1 25 591 2140 AND\n"
"2 1 28 598 2141 AND\n"
"2 1 31 605 2142 AND\n"
"2 1 34 612 2143 AND\n"
"2 1 37 619 2144 AND\n"
"2 1 40 626 2145 AND\n"
"2 1 43 633 2146 AND\n"
"2 1 46 640 2147 AND\n"
"2 1 49 647 2148 AND\n"
"2 1 52 654 2149 AND\n"
"2 1 55 661 2150 AND\n"
"2 1 58 668 2151 AND\n"
"2 1 61 675 2152 AND\n"
"2 1 64 682 2153 AND\n"
"2 1 67 689 2154 AND\n"
"2 1 70 696 2155 AND\n"
"2 1 73 703 2156 AND\n"
"2 1 76 710 2157 AND\n"
"2 1 79 717 2158 AND\n"
"2 1 82 724 2159 AND\n"
"2 1 85 731 2160 AND\n"
"2 1 88 738 2161 AND\n"
"2 1 91 745 2162 AND\n"
"2 1 94 752 2163 AND\n"
"2 1 97 759 2164 AND\n"
"2 1 100 766 2165 AND\n"
"2 1 103 773 2166 AND\n"
"2 1 106 780 2167 AND\n"
"2 1 109 787 2168 AND\n"
"2 1 112 794 2169 AND\n"
"2 1 115 801 2170 AND\n"
"2 1 118 808 2171 AND\n"
"2 1 121 815 2172 AND\n"
"2 1 124 822 2173 AND\n"
"2 1 127 829 2174 AND\n"
"2 1 130 836 2175 AND\n"
"2 1 133 843 2176 AND\n"
"2 1 136 850 2177 AND\n"
"2 1 139 857 2178 AND\n"
"2 1 142 864 2179 AND\n"
"2 1 145 871 2180 AND\n"
"2 1 148 878 2181 AND\n"
"2 1 151 885 2182 AND\n"
"2 1 154 892 2183 AND\n"
"2 1 157 899 2184 AND\n"
"2 1 160 906 2185 AND\n"
"2 1 163 913 2186 AND\n"
"2 1 166 920 2187 AND\n"
"2 1 169 927 2188 AND\n"
"2 1 172 934 2189 AND\n"
"2 1 175 941 2190 AND\n"
"2 1 178 948 2191 AND\n"
"2 1 181 955 2192 AND\n"
"2 1 184 962 2193 AND\n"
"2 1 187 969 2194 AND\n"
"2 1 190 976 2195 AND\n"
"2 1 193 983 2196 AND\n"
"2 1 196 990 2197 AND\n"
"2 1 199 997 2198 AND\n"
"2 1 202 1004 2199 AND\n"
"2 1 205 1011 2200 AND\n"
"2 1 208 1018 2201 AND\n"
"2 1 211 1025 2202 AND\n"
"2 1 214 1032 2203 AND\n"
"2 1 217 1039 2204 AND\n"
"2 1 220 1046 2205 AND\n"
"2 1 223 1053 2206 AND\n"
"2 1 226 1060 2207 AND\n"
"2 1 229 1067 2208 AND\n"
"2 1 232 1074 2209 AND\n"
"2 1 235 1081 2210 AND\n"
"2 1 238 1088 2211 AND\n"
"2 1 241 1095 2212 AND\n"
"2 1 244 1102 2213 AND\n"
"2 1 247 1109 2214 AND\n"
"2 1 250 1116 2215 AND\n"
"2 1 253 1123 2216 AND\n"
"2 1 256 1130 2217 AND\n"
"2 1 259 1137 2218 AND\n"
"2 1 262 1144 2219 AND\n"
"2 1 265 1151 2220 AND\n"
"2 1 268 1158 2221 AND\n"
"2 1 271 1165 2222 AND\n"
"2 1 274 1172 2223 AND\n"
"2 1 277 1179 2224 AND\n"
"2 1 280 1186 2225 AND\n"
"2 1 283 1193 2226 AND\n"
"2 1 286 1200 2227 AND\n"
"2 1 289 1207 2228 AND\n"
"2 1 292 1214 2229 AND\n"
"2 1 295 1221 2230 AND\n"
"2 1 298 1228 2231 AND\n"
"2 1 301 1235 2232 AND\n"
"2 1 304 1242 2233 AND\n"
"2 1 307 1249 2234 AND\n"
"2 1 310 1256 2235 AND\n"
"2 1 313 1263 2236 AND\n"
"2 1 316 1270 2237 AND\n"
"2 1 319 1277 2238 AND\n"
"2 1 322 1284 2239 AND\n"
"2 1 325 1291 2240 AND\n"
"2 1 328 1298 2241 AND\n"
"2 1 331 1305 2242 AND\n"
"2 1 334 1312 2243 AND\n"
"2 1 337 1319 2244 AND\n"
"2 1 340 1326 2245 AND\n"
"2 1 343 1333 2246 AND\n"
"2 1 346 1340 2247 AND\n"
"2 1 349 1347 2248 AND\n"
"2 1 352 1354 2249 AND\n"
"2 1 355 1361 2250 AND\n"
"2 1 358 1368 2251 AND\n"
"2 1 361 1375 2252 AND\n"
"2 1 364 1382 2253 AND\n"
"2 1 367 1389 2254 AND\n"
"2 1 370 1396 2255 AND\n"
"2 1 373 1403 2256 AND\n"
"2 1 376 1410 2257 AND\n"
"2 1 379 1417 2258 AND\n"
"2 1 382 1424 2259 AND\n"
"2 1 385 1431 2260 AND\n"
"2 1 388 1438 2261 AND\n"
"2 1 391 1445 2262 AND\n"
"2 1 394 1452 2263 AND\n"
"2 1 397 1459 2264 AND\n"
"2 1 400 1466 2265 AND\n"
"2 1 403 1473 2266 AND\n"
"2 1 406 1480 2267 AND\n"
"2 1 409 1487 2268 AND\n"
"2 1 412 1494 2269 AND\n"
"2 1 415 1501 2270 AND\n"
"2 1 418 1508 2271 AND\n"
"2 1 421 1515 2272 AND\n"
"2 1 424 1522 2273 AND\n"
"2 1 427 1529 2274 AND\n"
"2 1 430 1536 2275 AND\n"
"2 1 433 1543 2276 AND\n"
"2 1 436 1550 2277 AND\n"
"2 1 439 1557 2278 AND\n"
"2 1 442 1564 2279 AND\n"
"2 1 445 1571 2280 AND\n"
"2 1 448 1578 2281 AND\n"
"2 1 451 1585 2282 AND\n"
"2 1 454 1592 2283 AND\n"
"2 1 457 1599 2284 AND\n"
"2 1 460 6 2285 AND\n"
"2 1 463 13 2286 AND\n"
"2 1 466 20 2287 AND\n"
"2 1 469 27 2288 AND\n"
"2 1 472 34 2289 AND\n"
"2 1 475 41 2290 AND\n"
"2 1 478 48 2291 AND\n"
"2 1 481 55 2292 AND\n"
"2 1 484 62 2293 AND\n"
"2 1 487 69 2294 AND\n"
"2 1 490 76 2295 AND\n"
"2 1 493 83 2296 AND\n"
"2 1 496 90 2297 AND\n"
"2 1 499 97 2298 AND\n"
"2 1 502 104 2299 AND\n"
"2 1 505 111 2300 AND\n"
"2 1 508 118 2301 AND\n"
"2 1 511 125 2302 AND\n"
"2 1 514 132 2303 AND\n"
"2 1 517 139 2304 AND\n"
"2 1 520 146 2305 AND\n"
"2 1 523 153 2306 AND\n"
"2 1 526 160 2307 AND\n"
"2 1 529 167 2308 AND\n"
"2 1 532 174 2309 AND\n"
"2 1 535 181 2310 AND\n"
"2 1 538 188 2311 AND\n"
"2 1 541 195 2312 AND\n"
"2 1 544 202 2313 AND\n"
"2 1 547 209 2314 AND\n"
"2 1 550 216 2315 AND\n"
"2 1 553 223 2316 AND\n"
"2 1 556 230 2317 AND\n"
"2 1 559 237 2318 AND\n"
"2 1 562 244 2319 AND\n"
"2 1 565 251 2320 AND\n"
"2 1 568 258 2321 AND\n"
"2 1 571 265 2322 AND\n"
"2 1 574 272 2323 AND\n"
"2 1 577 279 2324 AND\n"
"2 1 580 286 2325 AND\n"
"2 1 583 293 2326 AND\n"
"2 1 586 300 2327 AND\n"
"2 1 589 307 2328 AND\n"
"2 1 592 314 2329 AND\n"
"2 1 595 321 2330 AND\n"
"2 1 598 328 2331 AND\n"
"2 1 601 335 2332 AND\n"
"2 1 604 342 2333 AND\n"
"2 1 607 349 2334 AND\n"
"2 1 610 356 2335 AND\n"
"2 1 613 363 2336 AND\n"
"2 1 616 370 2337 AND\n"
"2 1 619 377 2338 AND\n"
"2 1 622 384 2339 AND\n"
"2 1 625 391 2340 AND\n"
"2 1 628 398 2341 AND\n"
"2 1 631 405 2342 AND\n"
"2 1 634 412 2343 AND\n"
"2 1 637 419 2344 AND\n"
"2 1 640 426 2345 AND\n"
"2 1 643 433 2346 AND\n"
"2 1 646 440 2347 AND\n"
"2 1 649 447 2348 AND\n"
"2 1 652 454 2349 AND\n"
"2 1 655 461 2350 AND\n"
"2 1 658 468 2351 AND\n"
"2 1 661 475 2352 AND\n"
"2 1 664 482 2353 AND\n"
"2 1 667 489 2354 AND\n"
"2 1 670 496 2355 AND\n"
"2 1 673 503 2356 AND\n"
"2 1 676 510 2357 AND\n"
"2 1 679 517 2358 AND\n"
"2 1 682 524 2359 AND\n"
"2 1 685 531 2360 AND\n"
"2 1 688 538 2361 AND\n"
"2 1 691 545 2362 AND\n"
"2 1 694 552 2363 AND\n"
"2 1 697 559 2364 AND\n"
"2 1 700 566 2365 AND\n"
"2 1 703 573 2366 AND\n"
"2 1 706 580 2367 AND\n"
"2 1 709 587 2368 AND\n"
"2 1 712 594 2369 AND\n"
"2 1 715 601 2370 AND\n"
"2 1 718 608 2371 AND\n"
"2 1 721 615 2372 AND\n"
"2 1 724 622 2373 AND\n"
"2 1 727 629 2374 AND\n"
"2 1 730 636 2375 AND\n"
"2 1 733 643 2376 AND\n"
"2 1 736 650 2377 AND\n"
"2 1 739 657 2378 AND\n"
"2 1 742 664 2379 AND\n"
"2 1 745 671 2380 AND\n"
"2 1 748 678 2381 AND\n"
"2 1 751 685 2382 AND\n"
"2 1 754 692 2383 AND\n"
"2 1 757 699 2384 AND\n"
"2 1 760 706 2385 AND\n"
"2 1 763 713 2386 AND\n"
"2 1 766 720 2387 AND\n"
"2 1 769 727 2388 AND\n"
"2 1 772 734 2389 AND\n"
"2 1 775 741 2390 AND\n"
"2 1 778 748 2391 AND\n"
"2 1 781 755 2392 AND\n"
"2 1 784 762 2393 AND\n"
"2 1 787 769 2394 AND\n"
"2 1 790 776 2395 AND\n"
"2 1 793 783 2396 AND\n"
"2 1 796 790 2397 AND\n"
"2 1 799 797 2398 AND\n"
"2 1 802 804 2399 AND\n"
"2 1 805 811 2400 AND\n"
"2 1 808 818 2401 AND\n"
"2 1 811 825 2402 AND\n"
"2 1 814 832 2403 AND\n"
"2 1 817 839 2404 AND\n"
"2 1 820 846 2405 AND\n"
"2 1 823 853 2406 AND\n"
"2 1 826 860 2407 AND\n"
"2 1 829 867 2408 AND\n"
"2 1 832 874 2409 AND\n"
"2 1 835 881 2410 AND\n"
"2 1 838 888 2411 AND\n"
"2 1 841 895 2412 AND\n"
"2 1 844 902 2413 AND\n"
"2 1 847 909 2414 AND\n"
"2 1 850 916 2415 AND\n"
"2 1 853 923 2416 AND\n"
"2 1 856 930 2417 AND\n"
"2 1 859 937 2418 AND\n"
"2 1 862 944 2419 AND\n"
"2 1 865 951 2420 AND\n"
"2 1 868 958 2421 AND\n"
"2 1 871 965 2422 AND\n"
"2 1 874 972 2423 AND\n"
"2 1 877 979 2424 AND\n"
"2 1 880 986 2425 AND\n"
"2 1 883 993 2426 AND\n"
"2 1 886 1000 2427 AND\n"
"2 1 889 1007 2428 AND\n"
"2 1 892 1014 2429 AND\n"
"2 1 895 1021 2430 AND\n"
"2 1 898 1028 2431 AND\n"
"2 1 901 1035 2432 AND\n"
"2 1 904 1042 2433 AND\n"
"2 1 907 1049 2434 AND\n"
"2 1 910 1056 2435 AND\n"
"2 1 913 1063 2436 AND\n"
"2 1 916 1070 2437 AND\n"
"2 1 919 1077 2438 AND\n"
"2 1 922 1084 2439 AND\n"
"2 1 925 1091 2440 AND\n"
"2 1 928 1098 2441 AND\n"
"2 1 931 1105 2442 AND\n"
"2 1 934 1112 2443 AND\n"
"2 1 937 1119 2444 AND\n"
"2 1 940 1126 2445 AND\n"
"2 1 943 1133 2446 AND\n"
"2 1 946 1140 2447 AND\n"
"2 1 949 1147 2448 AND\n"
"2 1 952 1154 2449 AND\n"
"2 1 955 1161 2450 AND\n"
"2 1 958 1168 2451 AND\n"
"2 1 961 1175 2452 AND\n"
"2 1 964 1182 2453 AND\n"
"2 1 967 1189 2454 AND\n"
"2 1 970 1196 2455 AND\n"
"2 1 973 1203 2456 AND\n"
"2 1 976 1210 2457 AND\n"
"2 1 979 1217 2458 AND\n"
"2 1 982 1224 2459 AND\n"
"2 1 985 1231 2460 AND\n"
"2 1 988 1238 2461 AND\n"
"2 1 991 1245 2462 AND\n"
"2 1 994 1252 2463 AND\n"
"2 1 997 1259 2464 AND\n"
"2 1 1000 1266 2465 AND\n"
"2 1 1003 1273 2466 AND\n"
"2 1 1006 1280 2467 AND\n"
"2 1 1009 1287 2468 AND\n"
"2 1 1012 1294 2469 AND\n"
"2 1 1015 1301 2470 AND\n"
"2 1 1018 1308 2471 AND\n"
"2 1 1021 1315 2472 AND\n"
"2 1 1024 1322 2473 AND\n"
"2 1 1027 1329 2474 AND\n"
"2 1 1030 1336 2475 AND\n"
"2 1 1033 1343 2476 AND\n"
"2 1 1036 1350 2477 AND\n"
"2 1 1039 1357 2478 AND\n"
"2 1 1042 1364 2479 AND\n"
"2 1 1045 1371 2480 AND\n"
"2 1 1048 1378 2481 AND\n"
"2 1 1051 1385 2482 AND\n"
"2 1 1054 1392 2483 AND\n"
"2 1 1057 1399 2484 AND\n"
"2 1 1060 1406 2485 AND\n"
"2 1 1063 1413 2486 AND\n"
"2 1 1066 1420 2487 AND\n"
"2 1 1069 1427 2488 AND\n"
"2 1 1072 1434 2489 AND\n"
"2 1 1075 1441 2490 AND\n"
"2 1 1078 1448 2491 AND\n"
"2 1 1081 1455 2492 AND\n"
"2 1 1084 1462 2493 AND\n"
"2 1 1087 1469 2494 AND\n"
"2 1 1090 1476 2495 AND\n"
"2 1 1093 1483 2496 AND\n"
"2 1 1096 1490 2497 AND\n"
"2 1 1099 1497 2498 AND\n"
"2 1 1102 1504 2499 AND\n"
"2 1 1105 1511 2500 AND\n"
"2 1 1108 1518 2501 AND\n"
"2 1 1111 1525 2502 AND\n"
"2 1 1114 1532 2503 AND\n"
"2 1 1117 1539 2504 AND\n"
"2 1 1120 1546 2505 AND\n"
"2 1 1123 1553 2506 AND\n"
"2 1 1126 1560 2507 AND\n"
"2 1 1129 1567 2508 AND\n"
"2 1 1132 1574 2509 AND\n"
"2 1 1135 1581 2510 AND\n"
"2 1 1138 1588 2511 AND\n"
"2 1 1141 1595 2512 AND\n"
"2 1 1144 2 2513 AND\n"
"2 1 1147 9 2514 AND\n"
"2 1 1150 16 2515 AND\n"
"2 1 1153 23 2516 AND\n"
"2 1 1156 30 2517 AND\n"
"2 1 1159 37 2518 AND\n"
"2 1 1162 44 2519 AND\n"
"2 1 1165 51 2520 AND\n"
"2 1 1168 58 2521 AND\n"
"2 1 1171 65 2522 AND\n"
"2 1 1174 72 2523 AND\n"
"2 1 1177 79 2524 AND\n"
"2 1 1180 86 2525 AND\n"
"2 1 1183 93 2526 AND\n"
"2 1 1186 100 2527 AND\n"
"2 1 1189 107 2528 AND\n"
"2 1 1192 114 2529 AND\n"
"2 1 1195 121 2530 AND\n"
"2 1 1198 128 2531 AND\n"
"2 1 1201 135 2532 AND\n"
"2 1 1204 142 2533 AND\n"
"2 1 1207 149 2534 AND\n"
"2 1 1210 156 2535 AND\n"
"2 1 1213 163 2536 AND\n"
"2 1 1216 170 2537 AND\n"
"2 1 1219 177 2538 AND\n"
"2 1 1222 184 2539 AND\n"
"2 1 1225 191 2540 AND\n"
"2 1 1228 198 2541 AND\n"
"2 1 1231 205 2542 AND\n"
"2 1 1234 212 2543 AND\n"
"2 1 1237 219 2544 AND\n"
"2 1 1240 226 2545 AND\n"
"2 1 1243 233 2546 AND\n"
"2 1 1246 240 2547 AND\n"
"2 1 1249 247 2548 AND\n"
"2 1 1252 254 2549 AND\n"
"2 1 1255 261 2550 AND\n"
"2 1 1258 268 2551 AND\n"
"2 1 1261 275 2552 AND\n"
"2 1 1264 282 2553 AND\n"
"2 1 1267 289 2554 AND\n"
"2 1 1270 296 2555 AND\n"
"2 1 1273 303 2556 AND\n"
"2 1 1276 310 2557 AND\n"
"2 1 1279 317 2558 AND\n"
"2 1 1282 324 2559 AND\n"
"2 1 1285 331 2560 AND\n"
"2 1 1288 338 2561 AND\n"
"2 1 1291 345 2562 AND\n"
"2 1 1294 352 2563 AND\n"
"2 1 1297 359 2564 AND\n"
"2 1 1300 366 2565 AND\n"
"2 1 1303 373 2566 AND\n"
"2 1 1306 380 2567 AND\n"
"2 1 1309 387 2568 AND\n"
"2 1 1312 394 2569 AND\n"
"2 1 1315 401 2570 AND\n"
"2 1 1318 408 2571 AND\n"
"2 1 1321 415 2572 AND\n"
"2 1 1324 422 2573 AND\n"
"2 1 1327 429 2574 AND\n"
"2 1 1330 436 2575 AND\n"
"2 1 1333 443 2576 AND\n"
"2 1 1336 450 2577 AND\n"
"2 1 1339 457 2578 AND\n"
"2 1 1342 464 2579 AND\n"
"2 1 1345 471 2580 AND\n"
"2 1 1348 478 2581 AND\n"
"2 1 1351 485 2582 AND\n"
"2 1 1354 492 2583 AND\n"
"2 1 1357 499 2584 AND\n"
"2 1 1360 506 2585 AND\n"
"2 1 1363 513 2586 AND\n"
"2 1 1366 520 2587 AND\n"
"2 1 1369 527 2588 AND\n"
"2 1 1372 534 2589 AND\n"
"2 1 1375 541 2590 AND\n"
"2 1 1378 548 2591 AND\n"
"2 1 1381 555 2592 AND\n"
"2 1 1384 562 2593 AND\n"
"2 1 1387 569 2594 AND\n"
"2 1 1390 576 2595 AND\n"
"2 1 1393 583 2596 AND\n"
"2 1 1396 590 2597 AND\n"
"2 1 1399 597 2598 AND\n"
"2 1 1402 604 2599 AND\n"
"2 1 1405 611 2600 AND\n"
"2 1 1408 618 2601 AND\n"
"2 1 1411 625 2602 AND\n"
"2 1 1414 632 2603 AND\n"
"2 1 1417 639 2604 AND\n"
"2 1 1420 646 2605 AND\n"
"2 1 1423 653 2606 AND\n"
"2 1 1426 660 2607 AND\n"
"2 1 1429 667 2608 AND\n"
"2 1 1432 674 2609 AND\n"
"2 1 1435 681 2610 AND\n"
"2 1 1438 688 2611 AND\n"
"2 1 1441 695 2612 AND\n"
"2 1 1444 702 2613 AND\n"
"2 1 1447 709 2614 AND\n"
"2 1 1450 716 2615 AND\n"
"2 1 1453 723 2616 AND\n"
"2 1 1456 730 2617 AND\n"
"2 1 1459 737 2618 AND\n"
"2 1 1462 744 2619 AND\n"
"2 1 1465 751 2620 AND\n"
"2 1 1468 758 2621 AND\n"
"2 1 1471 765 2622 AND\n"
"2 1 1474 772 2623 AND\n"
"2 1 1477 779 2624 AND\n"
"2 1 1480 786 2625 AND\n"
"2 1 1483 793 2626 AND\n"
"2 1 1486 800 2627 AND\n"
"2 1 1489 807 2628 AND\n"
"2 1 1492 814 2629 AND\n"
"2 1 1495 821 2630 AND\n"
"2 1 1498 828 2631 AND\n"
"2 1 1501 835 2632 AND\n"
"2 1 1504 842 2633 AND\n"
"2 1 1507 849 2634 AND\n"
"2 1 1510 856 2635 AND\n"
"2 1 1513 863 2636 AND\n"
"2 1 1516 870 2637 AND\n"
"2 1 1519 877 2638 AND\n"
"2 1 1522 884 2639 AND\n"
"2 1 1525 891 2640 AND\n"
"2 1 1528 898 2641 AND\n"
"2 1 1531 905 2642 AND\n"
"2 1 1534 912 2643 AND\n"
"2 1 1537 919 2644 AND\n"
"2 1 1540 926 2645 AND\n"
"2 1 1543 933 2646 AND\n"
"2 1 1546 940 2647 AND\n"
"2 1 1549 947 2648 AND\n"
"2 1 1552 954 2649 AND\n"
"2 1 1555 961 2650 AND\n"
"2 1 1558 968 2651 AND\n"
"2 1 1561 975 2652 AND\n"
"2 1 1564 982 2653 AND\n"
"2 1 1567 989 2654 AND\n"
"2 1 1570 996 2655 AND\n"
"2 1 1573 1003 2656 AND\n"
"2 1 1576 1010 2657 AND\n"
"2 1 1579 1017 2658 AND\n"
"2 1 1582 1024 2659 AND\n"
"2 1 1585 1031 2660 AND\n"
"2 1 1588 1038 2661 AND\n"
"2 1 1591 1045 2662 AND\n"
"2 1 1594 1052 2663 AND\n"
"2 1 1597 1059 2664 AND\n"
"2 1 0 1066 2665 AND\n"
"2 1 3 1073 2666 AND\n"
"2 1 6 1080 2667 AND\n"
"2 1 9 1087 2668 AND\n"
"2 1 12 1094 2669 AND\n"
"2 1 15 1101 2670 AND\n"
"2 1 18 1108 2671 AND\n"
"2 1 21 1115 2672 AND\n"
"2 1 24 1122 2673 AND\n"
"2 1 27 1129 2674 AND\n"
"2 1 30 1136 2675 AND\n"
"2 1 33 1143 2676 AND\n"
"2 1 36 1150 2677 AND\n"
"2 1 39 1157 2678 AND\n"
"2 1 42 1164 2679 AND\n"
"2 1 45 1171 2680 AND\n"
"2 1 48 1178 2681 AND\n"
"2 1 51 1185 2682 AND\n"
"2 1 54 1192 2683 AND\n"
"2 1 57 1199 2684 AND\n"
"2 1 60 1206 2685 AND\n"
"2 1 63 1213 2686 AND\n"
"2 1 66 1220 2687 AND\n"
"2 1 69 1227 2688 AND\n"
"2 1 72 1234 2689 AND\n"
"2 1 75 1241 2690 AND\n"
"2 1 78 1248 2691 AND\n"
"2 1 81 1255 2692 AND\n"
"2 1 84 1262 2693 AND\n"
"2 1 87 1269 2694 AND\n"
"2 1 90 1276 2695 AND\n"
"2 1 93 1283 2696 AND\n"
"2 1 96 1290 2697 AND\n"
"2 1 99 1297 2698 AND\n"
"2 1 102 1304 2699 AND\n"
"2 1 105 1311 2700 AND\n"
"2 1 108 1318 2701 AND\n"
"2 1 111 1325 2702 AND\n"
"2 1 114 1332 2703 AND\n"
"2 1 117 1339 2704 AND\n"
"2 1 120 1346 2705 AND\n"
"2 1 123 1353 2706 AND\n"
"2 1 126 1360 2707 AND\n"
"2 1 129 1367 2708 AND\n"
"2 1 132 1374 2709 AND\n"
"2 1 135 1381 2710 AND\n"
"2 1 138 1388 2711 AND\n"
"2 1 141 1395 2712 AND\n"
"2 1 144 1402 2713 AND\n"
"2 1 147 1409 2714 AND\n"
"2 1 150 1416 2715 AND\n"
"2 1 153 1423 2716 AND\n"
"2 1 156 1430 2717 AND\n"
"2 1 159 1437 2718 AND\n"
"2 1 162 1444 2719 AND\n"
"2 1 165 1451 2720 AND\n"
"2 1 168 1458 2721 AND\n"
"2 1 171 1465 2722 AND\n"
"2 1 174 1472 2723 AND\n"
"2 1 177 1479 2724 AND\n"
"2 1 180 1486 2725 AND\n"
"2 1 183 1493 2726 AND\n"
"2 1 186 1500 2727 AND\n"
"2 1 189 1507 2728 AND\n"
"2 1 192 1514 2729 AND\n"
"2 1 195 1521 2730 AND\n"
"2 1 198 1528 2731 AND\n"
"2 1 201 1535 2732 AND\n"
"2 1 204 1542 2733 AND\n"
"2 1 207 1549 2734 AND\n"
"2 1 210 1556 2735 AND\n"
"2 1 213 1563 2736 AND\n"
"2 1 216 1570 2737 AND\n"
"2 1 219 1577 2738 AND\n"
"2 1 222 1584 2739 AND\n"
"2 1 225 1591 2740 AND\n"
"2 1 228 1598 2741 AND\n"
"2 1 231 5 2742 AND\n"
"2 1 234 12 2743 AND\n"
"2 1 237 19 2744 AND\n"
"2 1 240 26 2745 AND\n"
"2 1 243 33 2746 AND\n"
"2 1 246 40 2747 AND\n"
"2 1 249 47 2748 AND\n"
"2 1 252 54 2749 AND\n"
"2 1 255 61 2750 AND\n"
"2 1 258 68 2751 AND\n"
"2 1 261 75 2752 AND\n"
"2 1 264 82 2753 AND\n"
"2 1 267 89 2754 AND\n"
"2 1 270 96 2755 AND\n"
"2 1 273 103 2756 AND\n"
"2 1 276 110 2757 AND\n"
"2 1 279 117 2758 AND\n"
"2 1 282 124 2759 AND\n"
"2 1 285 131 2760 AND\n"
"2 1 288 138 2761 AND\n"
"2 1 291 145 2762 AND\n"
"2 1 294 152 2763 AND\n"
"2 1 297 159 2764 AND\n"
"2 1 300 166 2765 AND\n"
"2 1 303 173 2766 AND\n"
"2 1 306 180 2767 AND\n"
"2 1 309 187 2768 AND\n"
"2 1 312 194 2769 AND\n"
"2 1 315 201 2770 AND\n"
"2 1 318 208 2771 AND\n"
"2 1 321 215 2772 AND\n"
"2 1 324 222 2773 AND\n"
"2 1 327 229 2774 AND\n"
"2 1 330 236 2775 AND\n"
"2 1 333 243 2776 AND\n"
"2 1 336 250 2777 AND\n"
"2 1 339 257 2778 AND\n"
"2 1 342 264 2779 AND\n"
"2 1 345 271 2780 AND\n"
"2 1 348 278 2781 AND\n"
"2 1 351 285 2782 AND\n"
"2 1 354 292 2783 AND\n"
"2 1 357 299 2784 AND\n"
"2 1 360 306 2785 AND\n"
"2 1 363 313 2786 AND\n"
"2 1 366 320 2787 AND\n"
"2 1 369 327 2788 AND\n"
"2 1 372 334 2789 AND\n"
"2 1 375 341 2790 AND\n"
"2 1 378 348 2791 AND\n"
"2 1 381 355 2792 AND\n"
"2 1 384 362 2793 AND\n"
"2 1 387 369 2794 AND\n"
"2 1 390 376 2795 AND\n"
"2 1 393 383 2796 AND\n"
"2 1 396 390 2797 AND\n"
"2 1 399 397 2798 AND\n"
"2 1 402 404 2799 AND\n"
"2 1 405 411 2800 AND\n"
"2 1 408 418 2801 AND\n"
"2 1 411 425 2802 AND\n"
"2 1 414 432 2803 AND\n"
"2 1 417 439 2804 AND\n"
"2 1 420 446 2805 AND\n"
"2 1 423 453 2806 AND\n"
"2 1 426 460 2807 AND\n"
"2 1 429 467 2808 AND\n"
"2 1 432 474 2809 AND\n"
"2 1 435 481 2810 AND\n"
"2 1 438 488 2811 AND\n"
"2 1 441 495 2812 AND\n"
"2 1 444 502 2813 AND\n"
"2 1 447 509 2814 AND\n"
"2 1 450 516 2815 AND\n"
"2 1 453 523 2816 AND\n"
"2 1 456 530 2817 AND\n"
"2 1 459 537 2818 AND\n"
"2 1 462 544 2819 AND\n"
"2 1 465 551 2820 AND\n"
"2 1 468 558 2821 AND\n"
"2 1 471 565 2822 AND\n"
"2 1 474 572 2823 AND\n"
"2 1 477 579 2824 AND\n"
"2 1 480 586 2825 AND\n"
"2 1 483 593 2826 AND\n"
"2 1 486 600 2827 AND\n"
"2 1 489 607 2828 AND\n"
"2 1 492 614 2829 AND\n"
"2 1 495 621 2830 AND\n"
"2 1 498 628 2831 AND\n"
"2 1 501 635 2832 AND\n"
"2 1 504 642 2833 AND\n"
"2 1 507 649 2834 AND\n"
"2 1 510 656 2835 AND\n"
"2 1 513 663 2836 AND\n"
"2 1 516 670 2837 AND\n"
"2 1 519 677 2838 AND\n"
"2 1 522 684 2839 AND\n"
"2 1 525 691 2840 AND\n"
"2 1 528 698 2841 AND\n"
"2 1 531 705 2842 AND\n"
"2 1 534 712 2843 AND\n"
"2 1 537 719 2844 AND\n"
"2 1 540 726 2845 AND\n"
"2 1 543 733 2846 AND\n"
"2 1 546 740 2847 AND\n"
"2 1 549 747 2848 AND\n"
"2 1 552 754 2849 AND\n"
"2 1 555 761 2850 AND\n"
"2 1 558 768 2851 AND\n"
"2 1 561 775 2852 AND\n"
"2 1 564 782 2853 AND\n"
"2 1 567 789 2854 AND\n"
"2 1 570 796 2855 AND\n"
"2 1 573 803 2856 AND\n"
"2 1 576 810 2857 AND\n"
"2 1 579 817 2858 AND\n"
"2 1 582 824 2859 AND\n"
"2 1 585 831 2860 AND\n"
"2 1 588 838 2861 AND\n"
"2 1 591 845 2862 AND\n"
"2 1 594 852 2863 AND\n"
"2 1 597 859 2864 AND\n"
"2 1 600 866 2865 AND\n"
"2 1 603 873 2866 AND\n"
"2 1 606 880 2867 AND\n"
"2 1 609 887 2868 AND\n"
"2 1 612 894 2869 AND\n"
"2 1 615 901 2870 AND\n"
"2 1 618 908 2871 AND\n"
"2 1 621 915 2872 AND\n"
"2 1 624 922 2873 AND\n"
"2 1 627 929 2874 AND\n"
"2 1 630 936 2875 AND\n"
"2 1 633 943 2876 AND\n"
"2 1 636 950 2877 AND\n"
"2 1 639 957 2878 AND\n"
"2 1 642 964 2879 AND\n"
"2 1 645 971 2880 AND\n"
"2 1 648 978 2881 AND\n"
"2 1 651 985 2882 AND\n"
"2 1 654 992 2883 AND\n"
"2 1 657 999 2884 AND\n"
"2 1 660 1006 2885 AND\n"
"2 1 663 1013 2886 AND\n"
"2 1 666 1020 2887 AND\n"
"2 1 669 1027 2888 AND\n"
"2 1 672 1034 2889 AND\n"
"2 1 675 1041 2890 AND\n"
"2 1 678 1048 2891 AND\n"
"2 1 681 1055 2892 AND\n"
"2 1 684 1062 2893 AND\n"
"2 1 687 1069 2894 AND\n"
"2 1 690 1076 2895 AND\n"
"2 1 693 1083 2896 AND\n"
"2 1 696 1090 2897 AND\n"
"2 1 699 1097 2898 AND\n"
"2 1 702 1104 2899 AND\n"
"2 1 705 1111 2900 AND\n"
"2 1 708 1118 2901 AND\n"
"2 1 711 1125 2902 AND\n"
"2 1 714 1132 2903 AND\n"
"2 1 717 1139 2904 AND\n"
"2 1 720 1146 2905 AND\n"
"2 1 723 1153 2906 AND\n"
"2 1 726 1160 2907 AND\n"
"2 1 729 1167 2908 AND\n"
"2 1 732 1174 2909 AND\n"
"2 1 735 1181 2910 AND\n"
"2 1 738 1188 2911 AND\n"
"2 1 741 1195 2912 AND\n"
"2 1 744 1202 2913 AND\n"
"2 1 747 1209 2914 AND\n"
"2 1 750 1216 2915 AND\n"
"2 1 753 1223 2916 AND\n"
"2 1 756 1230 2917 AND\n"
"2 1 759 1237 2918 AND\n"
"2 1 762 1244 2919 AND\n"
"2 1 765 1251 2920 AND\n"
"2 1 768 1258 2921 AND\n"
"2 1 771 1265 2922 AND\n"
"2 1 774 1272 2923 AND\n"
"2 1 777 1279 2924 AND\n"
"2 1 780 1286 2925 AND\n"
"2 1 783 1293 2926 AND\n"
"2 1 786 1300 2927 AND\n"
"2 1 789 1307 2928 AND\n"
"2 1 792 1314 2929 AND\n"
"2 1 795 1321 2930 AND\n"
"2 1 798 1328 2931 AND\n"
"2 1 801 1335 2932 AND\n"
"2 1 804 1342 2933 AND\n"
"2 1 807 1349 2934 AND\n"
"2 1 810 1356 2935 AND\n"
"2 1 813 1363 2936 AND\n"
"2 1 816 1370 2937 AND\n"
"2 1 819 1377 2938 AND\n"
"2 1 822 1384 2939 AND\n"
"2 1 825 1391 2940 AND\n"
"2 1 828 1398 2941 AND\n"
"2 1 831 1405 2942 AND\n"
"2 1 834 1412 2943 AND\n"
"2 1 837 1419 2944 AND\n"
"2 1 840 1426 2945 AND\n"
"2 1 843 1433 2946 AND\n"
"2 1 846 1440 2947 AND\n"
"2 1 849 1447 2948 AND\n"
"2 1 852 1454 2949 AND\n"
"2 1 855 1461 2950 AND\n"
"2 1 858 1468 2951 AND\n"
"2 1 861 1475 2952 AND\n"
"2 1 864 1482 2953 AND\n"
"2 1 867 1489 2954 AND\n"
"2 1 870 1496 2955 AND\n"
"2 1 873 1503 2956 AND\n"
"2 1 876 1510 2957 AND\n"
"2 1 879 1517 2958 AND\n"
"2 1 882 1524 2959 AND\n"
"2 1 885 1531 2960 AND\n"
"2 1 888 1538 2961 AND\n"
"2 1 891 1545 2962 AND\n"
"2 1 894 1552 2963 AND\n"
"2 1 897 1559 2964 AND\n"
"2 1 900 1566 2965 AND\n"
"2 1 903 1573 2966 AND\n"
"2 1 906 1580 2967 AND\n"
"2 1 909 1587 2968 AND\n"
"2 1 912 1594 2969 AND\n"
"2 1 915 1 2970 AND\n"
"2 1 918 8 2971 AND\n"
"2 1 921 15 2972 AND\n"
"2 1 924 22 2973 AND\n"
"2 1 927 29 2974 AND\n"
"2 1 930 36 2975 AND\n"
"2 1 933 43 2976 AND\n"
"2 1 936 50 2977 AND\n"
"2 1 939 57 2978 AND\n"
"2 1 942 64 2979 AND\n"
"2 1 945 71 2980 AND\n"
"2 1 948 78 2981 AND\n"
"2 1 951 85 2982 AND\n"
"2 1 954 92 2983 AND\n"
"2 1 957 99 2984 AND\n"
"2 1 960 106 2985 AND\n"
"2 1 963 113 2986 AND\n"
"2 1 966 120 2987 AND\n"
"2 1 969 127 2988 AND\n"
"2 1 972 134 2989 AND\n"
"2 1 975 141 2990 AND\n"
"2 1 978 148 2991 AND\n"
"2 1 981 155 2992 AND\n"
"2 1 984 162 2993 AND\n"
"2 1 987 169 2994 AND\n"
"2 1 990 176 2995 AND\n"
"2 1 993 183 2996 AND\n"
"2 1 996 190 2997 AND\n"
"2 1 999 197 2998 AND\n"
"2 1 1002 204 2999 AND\n"
"2 1 1005 211 3000 AND\n"
"2 1 1008 218 3001 AND\n"
"2 1 1011 225 3002 AND\n"
"2 1 1014 232 3003 AND\n"
"2 1 1017 239 3004 AND\n"
"2 1 1020 246 3005 AND\n"
"2 1 1023 253 3006 AND\n"
"2 1 1026 260 3007 AND\n"
"2 1 1029 267 3008 AND\n"
"2 1 1032 274 3009 AND\n"
"2 1 1035 281 3010 AND\n"
"2 1 1038 288 3011 AND\n"
"2 1 1041 295 3012 AND\n"
"2 1 1044 302 3013 AND\n"
"2 1 1047 309 3014 AND\n"
"2 1 1050 316 3015 AND\n"
"2 1 1053 323 3016 AND\n"
"2 1 1056 330 3017 AND\n"
"2 1 1059 337 3018 AND\n"
"2 1 1062 344 3019 AND\n"
"2 1 1065 351 3020 AND\n"
"2 1 1068 358 3021 AND\n"
"2 1 1071 365 3022 AND\n"
"2 1 1074 372 3023 AND\n"
"2 1 1077 379 3024 AND\n"
"2 1 1080 386 3025 AND\n"
"2 1 1083 393 3026 AND\n"
"2 1 1086 400 3027 AND\n"
"2 1 1089 407 3028 AND\n"
"2 1 1092 414 3029 AND\n"
"2 1 1095 421 3030 AND\n"
"2 1 1098 428 3031 AND\n"
"2 1 1101 435 3032 AND\n"
"2 1 1104 442 3033 AND\n"
"2 1 1107 449 3034 AND\n"
"2 1 1110 456 3035 AND\n"
"2 1 1113 463 3036 AND\n"
"2 1 1116 470 3037 AND\n"
"2 1 1119 477 3038 AND\n"
"2 1 1122 484 3039 AND\n"
"2 1 1125 491 3040 AND\n"
"2 1 1128 498 3041 AND\n"
"2 1 1131 505 3042 AND\n"
"2 1 1134 512 3043 AND\n"
"2 1 1137 519 3044 AND\n"
"2 1 1140 526 3045 AND\n"
"2 1 1143 533 3046 AND\n"
"2 1 1146 540 3047 AND\n"
"2 1 1149 547 3048 AND\n"
"2 1 1152 554 3049 AND\n"
"2 1 1155 561 3050 AND\n"
"2 1 1158 568 3051 AND\n"
"2 1 1161 575 3052 AND\n"
"2 1 1164 582 3053 AND\n"
"2 1 1167 589 3054 AND\n"
"2 1 1170 596 3055 AND\n"
"2 1 1173 603 3056 AND\n"
"2 1 1176 610 3057 AND\n"
"2 1 1179 617 3058 AND\n"
"2 1 1182 624 3059 AND\n"
"2 1 1185 631 3060 AND\n"
"2 1 1188 638 3061 AND\n"
"2 1 1191 645 3062 AND\n"
"2 1 1194 652 3063 AND\n"
"2 1 1197 659 3064 AND\n"
"2 1 1200 666 3065 AND\n"
"2 1 1203 673 3066 AND\n"
"2 1 1206 680 3067 AND\n"
"2 1 1209 687 3068 AND\n"
"2 1 1212 694 3069 AND\n"
"2 1 1215 701 3070 AND\n"
"2 1 1218 708 3071 AND\n"
"2 1 1221 715 3072 AND\n"
"2 1 1224 722 3073 AND\n"
"2 1 1227 729 3074 AND\n"
"2 1 1230 736 3075 AND\n"
"2 1 1233 743 3076 AND\n"
"2 1 1236 750 3077 AND\n"
"2 1 1239 757 3078 AND\n"
"2 1 1242 764 3079 AND\n"
"2 1 1245 771 3080 AND\n"
"2 1 1248 778 3081 AND\n"
"2 1 1251 785 3082 AND\n"
"2 1 1254 792 3083 AND\n"
"2 1 1257 799 3084 AND\n"
"2 1 1260 806 3085 AND\n"
"2 1 1263 813 3086 AND\n"
"2 1 1266 820 3087 AND\n"
"2 1 1269 827 3088 AND\n"
"2 1 1272 834 3089 AND\n"
"2 1 1275 841 3090 AND\n"
"2 1 1278 848 3091 AND\n"
"2 1 1281 855 3092 AND\n"
"2 1 1284 862 3093 AND\n"
"2 1 1287 869 3094 AND\n"
"2 1 1290 876 3095 AND\n"
"2 1 1293 883 3096 AND\n"
"2 1 1296 890 3097 AND\n"
"2 1 1299 897 3098 AND\n"
"2 1 1302 904 3099 AND\n"
"2 1 1305 911 3100 AND\n"
"2 1 1308 918 3101 AND\n"
"2 1 1311 925 3102 AND\n"
"2 1 1314 932 3103 AND\n"
"2 1 1317 939 3104 AND\n"
"2 1 1320 946 3105 AND\n"
"2 1 1323 953 3106 AND\n"
"2 1 1326 960 3107 AND\n"
"2 1 1329 967 3108 AND\n"
"2 1 1332 974 3109 AND\n"
"2 1 1335 981 3110 AND\n"
"2 1 1338 988 3111 AND\n"
"2 1 1341 995 3112 AND\n"
"2 1 1344 1002 3113 AND\n"
"2 1 1347 1009 3114 AND\n"
"2 1 1350 1016 3115 AND\n"
"2 1 1353 1023 3116 AND\n"
"2 1 1356 1030 3117 AND\n"
"2 1 1359 1037 3118 AND\n"
"2 1 1362 1044 3119 AND\n"
"2 1 1365 1051 3120 AND\n"
"2 1 1368 1058 3121 AND\n"
"2 1 1371 1065 3122 AND\n"
"2 1 1374 1072 3123 AND\n"
"2 1 1377 1079 3124 AND\n"
"2 1 1380 1086 3125 AND\n"
"2 1 1383 1093 3126 AND\n"
"2 1 1386 1100 3127 AND\n"
"2 1 1389 1107 3128 AND\n"
"2 1 1392 1114 3129 AND\n"
"2 1 1395 1121 3130 AND\n"
"2 1 1398 1128 3131 AND\n"
"2 1 1401 1135 3132 AND\n"
"2 1 1404 1142 3133 AND\n"
"2 1 1407 1149 3134 AND\n"
"2 1 1410 1156 3135 AND\n"
"2 1 1413 1163 3136 AND\n"
"2 1 1416 1170 3137 AND\n"
"2 1 1419 1177 3138 AND\n"
"2 1 1422 1184 3139 AND\n"
"2 1 1425 1191 3140 AND\n"
"2 1 1428 1198 3141 AND\n"
"2 1 1431 1205 3142 AND\n"
"2 1 1434 1212 3143 AND\n"
"2 1 1437 1219 3144 AND\n"
"2 1 1440 1226 3145 AND\n"
"2 1 1443 1233 3146 AND\n"
"2 1 1446 1240 3147 AND\n"
"2 1 1449 1247 3148 AND\n"
"2 1 1452 1254 3149 AND\n"
"2 1 1455 1261 3150 AND\n"
"2 1 1458 1268 3151 AND\n"
"2 1 1461 1275 3152 AND\n"
"2 1 1464 1282 3153 AND\n"
"2 1 1467 1289 3154 AND\n"
"2 1 1470 1296 3155 AND\n"
"2 1 1473 1303 3156 AND\n"
"2 1 1476 1310 3157 AND\n"
"2 1 1479 1317 3158 AND\n"
"2 1 1482 1324 3159 AND\n"
"2 1 1485 1331 3160 AND\n"
"2 1 1488 1338 3161 AND\n"
"2 1 1491 1345 3162 AND\n"
"2 1 1494 1352 3163 AND\n"
"2 1 1497 1359 3164 AND\n"
"2 1 1500 1366 3165 AND\n"
"2 1 1503 1373 3166 AND\n"
"2 1 1506 1380 3167 AND\n"
"2 1 1509 1387 3168 AND\n"
"2 1 1512 1394 3169 AND\n"
"2 1 1515 1401 3170 AND\n"
"2 1 1518 1408 3171 AND\n"
"2 1 1521 1415 3172 AND\n"
"2 1 1524 1422 3173 AND\n"
"2 1 1527 1429 3174 AND\n"
"2 1 1530 1436 3175 AND\n"
"2 1 1533 1443 3176 AND\n"
"2 1 1536 1450 3177 AND\n"
"2 1 1539 1457 3178 AND\n"
"2 1 1542 1464 3179 AND\n"
"2 1 1545 1471 3180 AND\n"
"2 1 1548 1478 3181 AND\n"
"2 1 1551 1485 3182 AND\n"
"2 1 1554 1492 3183 AND\n"
"2 1 1557 1499 3184 AND\n"
"2 1 1560 1506 3185 AND\n"
"2 1 1563 1513 3186 AND\n"
"2 1 1566 1520 3187 AND\n"
"2 1 1569 1527 3188 AND\n"
"2 1 1572 1534 3189 AND\n"
"2 1 1575 1541 3190 AND\n"
"2 1 1578 1548 3191 AND\n"
"2 1 1581 1555 3192 AND\n"
"2 1 1584 1562 3193 AND\n"
"2 1 1587 1569 3194 AND\n"
"2 1 1590 1576 3195 AND\n"
"2 1 1593 1583 3196 AND\n"
"2 1 1596 1590 3197 AND\n"
"2 1 1599 1597 3198 AND\n"
"2 1 2 4 3199 AND\n";
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = 34605;
