"""Top levels of the hard IP test benches"""
XIL = ("us", "usp")

# parameters of the wires of each UltraScale flavour
US_TOP = dict(SN=4, TG=6, TA=2, NP=1, MA=19, NW=4, SP=3, MP=3, MS=4, PF=4, MF=4, XE=2)


def hip_params(flav, width):
    """parameters of the top level for a flavour and width"""
    if flav in XIL:
        p = dict(W=width)
        if width == 512:
            p.update(UQ=137, UR=161, UC=183, UX=81)
        else:
            p.update(UQ=60 if flav == "us" else 62, UR=75, UC=85 if flav == "us" else 88, UX=33)
        if flav == "us":
            p.update(US_TOP)
        return p
    return dict(W=width, S=width // 256 or 1, FW=2 if flav == "s10" else 3, EW=2 if width == 128 else 3, CW=32 if flav == "s10" else 16)


def top_of(flav):
    return "top_hip_us" if flav in XIL else "top_hip_avst"
