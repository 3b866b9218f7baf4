@iface SomeGuide = Guide
