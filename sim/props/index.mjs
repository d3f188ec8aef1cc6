export const PROPS = {
  P01: { module: "p01" },
  P02: { module: "p02" },
  P03: { module: "p03" },
  P04: { module: "p04" },
  P05: { module: "p05" },
  P07: { module: "p07" },
  P08: { module: "p08" },
  P09: { module: "p09" },
  P10: { module: "p10" },
  P11: { module: "p11" },
  P12: { module: "p12" },
  P13: { module: "p13" },
  P14: { module: "p14" },
  P15: { module: "p15" },
  P17: { module: "p17" },
  P18: { module: "p18" },
  P19: { module: "p19" },
  P20: { module: "p20" },
  P21: { module: "p21" },
  P22: { module: "p22" },
  P23: { module: "p23" },
  P24: { module: "p24" },
  P27: { module: "p27" },
  P26: { module: "p26" },
  P28: { module: "p28" },
  P29: { module: "p29" },
  P30: { module: "p30" },
  P31: { module: "p31" },
  P32: { module: "p32" },
};
