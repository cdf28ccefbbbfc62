let n = 0;
export const nanoid = (size = 21) => (++n).toString(36).padStart(size, "n");
export const customAlphabet = (_, size = 21) => (s = size) => nanoid(s);
export const urlAlphabet = "useandom-26T198340PX75pxJACKVERYMINDBUSHWOLF_GQZbfghjklqvwyzrict";
